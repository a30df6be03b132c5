From 7b22d4a4cf4b291d6430feeb19598f15310f3b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:30 +0000
Subject: [PATCH 01/30] fix: keep the previous stock data when an update is
 rejected

---
 src/market_data/stock_data.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index a7775de..8aa6b3f 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -38,18 +38,15 @@ namespace OptionPricer {
     }
 
     void StockData::setPrice(const double& S) {
-        S_ = S;
-        validate();
+        *this = StockData(S, sigma_, c_); // Validate before modifying
     }
 
     void StockData::setSigma(const double& sigma) {
-        sigma_ = sigma;
-        validate();
+        *this = StockData(S_, sigma, c_);
     }
 
     void StockData::setCoupon(const std::optional<double>& c) {
-        c_ = c;
-        validate();
+        *this = StockData(S_, sigma_, c);
     }
 
     void StockData::validate() const {
-- 
2.43.0


From 0aa1a6c748d344fd89b6ecaa3d63ab258e4cde47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:30 +0000
Subject: [PATCH 02/30] fix: reject NaN quotes, strikes and maturities

---
 src/market_data/stock_data.cpp                           | 6 +++---
 src/option/base_option.cpp                               | 2 +-
 src/payoff/double_strikes/base_payoff_double_strikes.cpp | 4 ++--
 src/payoff/single_strike/base_payoff_single_strike.cpp   | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/market_data/stock_data.cpp b/src/market_data/stock_data.cpp
index 8aa6b3f..96c001d 100644
--- a/src/market_data/stock_data.cpp
+++ b/src/market_data/stock_data.cpp
@@ -50,14 +50,14 @@ namespace OptionPricer {
     }
 
     void StockData::validate() const {
-        if (S_ <= 0) {
+        if (!(S_ > 0)) { // Also rejects NaN
             throw std::invalid_argument("Price must be positive.");
         }
-        if (sigma_ < 0) {
+        if (!(sigma_ >= 0)) {
             throw std::invalid_argument("Sigma cannot be negative.");
         }
         // Check if the optional dividend was specified before accessing
-        if (c_.has_value() && (c_.value() < 0 || c_.value() > 1)) {
+        if (c_.has_value() && !(c_.value() >= 0 && c_.value() <= 1)) {
             throw std::invalid_argument("Coupon rate must be between 0 and 1.");
         }
     }
diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 8be0461..6c9d7af 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -22,7 +22,7 @@ namespace OptionPricer {
                    const double& T,
                    std::shared_ptr<IMarketData> marketData)
     : MarketDataObserver(ticker), T_(T), marketData_(std::move(marketData)) {
-        if (T < 0) throw std::invalid_argument("Time to expiration (T) must be positive.");
+        if (!(T >= 0)) throw std::invalid_argument("Time to expiration (T) must be positive.");
         // Try to retrieve StockData if not found it throws an exception
         auto stockData = marketData_->getStockData(id_);
         payoff_ = std::move(payoff); // Safely move the payoff
diff --git a/src/payoff/double_strikes/base_payoff_double_strikes.cpp b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
index 45f4f2a..0ae0b9f 100644
--- a/src/payoff/double_strikes/base_payoff_double_strikes.cpp
+++ b/src/payoff/double_strikes/base_payoff_double_strikes.cpp
@@ -6,8 +6,8 @@ namespace OptionPricer {
 
     PayoffDoubleStrikes::PayoffDoubleStrikes(const PayoffType& type, const double& K_L, const double& K_U)
         : Payoff(type), K_L_(K_L), K_U_(K_U) {
-        if (K_L_ < 0) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
-        if (K_U_ < 0) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
+        if (!(K_L_ >= 0)) throw std::invalid_argument("Lower Strike price (K_L) must be positive.");
+        if (!(K_U_ >= 0)) throw std::invalid_argument("Upper Strike price (K_U) must be positive.");
     }
 
     PayoffDoubleStrikes::~PayoffDoubleStrikes() = default;
diff --git a/src/payoff/single_strike/base_payoff_single_strike.cpp b/src/payoff/single_strike/base_payoff_single_strike.cpp
index 0132f37..9433855 100644
--- a/src/payoff/single_strike/base_payoff_single_strike.cpp
+++ b/src/payoff/single_strike/base_payoff_single_strike.cpp
@@ -5,7 +5,7 @@
 namespace OptionPricer {
 
     PayoffSingleStrike::PayoffSingleStrike(const PayoffType& type, const double& K) : Payoff(type), K_(K) {
-        if (K_ < 0) throw std::invalid_argument("Strike price (K) must be positive.");
+        if (!(K_ >= 0)) throw std::invalid_argument("Strike price (K) must be positive.");
     }
 
     PayoffSingleStrike::~PayoffSingleStrike() = default;
-- 
2.43.0


From 67f6d6eafe31c57abff1b773d46446d65cb78b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 03/30] fix: seed the pseudo random generator with its seed

---
 include/random/number_generator/pseudo_random_generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/random/number_generator/pseudo_random_generator.h b/include/random/number_generator/pseudo_random_generator.h
index 3ffc680..08d4844 100644
--- a/include/random/number_generator/pseudo_random_generator.h
+++ b/include/random/number_generator/pseudo_random_generator.h
@@ -13,7 +13,7 @@ namespace OptionPricer {
         double operator()(Distribution& dist) const override;
 
     private:
-        mutable std::mt19937 generator_; // Mersenne Twister PRNG
+        mutable std::mt19937 generator_{seed_}; // Mersenne Twister PRNG
     };
 
 }
-- 
2.43.0


From efb3f1707c6b2a6cd925360c7140c89cc8f2bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 04/30] fix: draw ContinuousUniformDistribution on [a, b)

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index ebe5c43..0558a0a 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -2,7 +2,7 @@
 
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
-    : a_(a), b_(b) {
+    : a_(a), b_(b), uniform_dist_(a_, b_) {
         if (a_ >= b_)
             throw std::invalid_argument("a must lower than b");
     }
-- 
2.43.0


From 659ba9c8957a30583436d6cc0d969d8f406e1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 05/30] fix: use the rate 1/nu for the Variance Gamma
 subordinator

---
 src/model/variance_gamma_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index a386bd3..2b8b6d1 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -37,7 +37,7 @@ namespace OptionPricer {
         const double dt = T / static_cast<double>(steps);
 
         StandardNormalDistribution snDist;
-        GammaDistribution gammaDist(dt / nu_, nu_);
+        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-- 
2.43.0


From 325135d68f769bbc23fd7425bc9bac90e224a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 06/30] fix: compute the Variance Gamma drift correction from
 the current volatility

---
 include/model/variance_gamma_model.h | 1 -
 src/model/variance_gamma_model.cpp   | 9 ++++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/model/variance_gamma_model.h b/include/model/variance_gamma_model.h
index 5c50ce6..9db0593 100644
--- a/include/model/variance_gamma_model.h
+++ b/include/model/variance_gamma_model.h
@@ -20,7 +20,6 @@ namespace OptionPricer {
     private:
         double nu_;    // Variance rate of the Gamma process
         double theta_; // Drift of the Brownian motion
-        double omega_; // Drift correction term
     };
 
 }
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index 2b8b6d1..ef60b7b 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -16,10 +16,6 @@ namespace OptionPricer {
         if (nu_ <= 0.0) {
             throw std::invalid_argument("nu must be positive");
         }
-
-        // Calculate the omega correction term that makes the actualized stock price a martingale
-        const double sigma = stockData_->getSigma();
-        omega_ = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
     }
 
     VarianceGammaModel::~VarianceGammaModel() = default;
@@ -36,6 +32,9 @@ namespace OptionPricer {
         const auto steps = getSteps();
         const double dt = T / static_cast<double>(steps);
 
+        // Calculate the omega correction term that makes the actualized stock price a martingale
+        const double omega = (1.0 / nu_) * std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_);
+
         StandardNormalDistribution snDist;
         GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
 
@@ -44,7 +43,7 @@ namespace OptionPricer {
             const double g = (*generator_)(gammaDist); // Gamma subordinator
             const double z = (*generator_)(snDist);  // Normal distributed increment
 
-            const double drift = (r - c + omega_) * dt;
+            const double drift = (r - c + omega) * dt;
             const double VG = theta_ * g + sigma * std::sqrt(g) * z;
 
             S *= std::exp(drift + VG);
-- 
2.43.0


From b01261e3f383ed85a5d56bbd35ab790c98e74780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 07/30] fix: add the jump compensator to the Merton drift

---
 src/model/merton_jump_diffusion_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 2007e55..5268cc0 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -34,11 +34,12 @@ namespace OptionPricer {
         StandardNormalDistribution snDist;
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
+        const double meanJump = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_); // E[exp(J)]
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
-            // Drift Part
-            const double drift = (r - c - 0.5 * sigma*sigma) * dt;
+            // Drift Part with risk neutral adjustment
+            const double drift = (r - c - 0.5 * sigma*sigma - lambda_ * (meanJump-1)) * dt;
 
             // Diffusion part: Standard Brownian Motion
             const double z = (*generator_)(snDist);
-- 
2.43.0


From e68987fbc56a290929f61a7f3f316a42ec3b024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 08/30] fix: add the jump compensator to the Bates drift

---
 src/model/bates_model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 6c41cfd..9522ed3 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -43,6 +43,7 @@ namespace OptionPricer {
         StandardNormalDistribution snd;
         PoissonDistribution poissonDist(lambda_ * dt);
         NormalDistribution jumpDist(muJ_, sigmaJ_);
+        const double meanJump = exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_); // E[exp(J)]
 
         std::vector<double> prices(steps);
         for (int t = 0; t < steps; ++t) {
@@ -55,7 +56,7 @@ namespace OptionPricer {
 
             // Update stock price S(t+1) using variance v(t)
             const double VMax = std::max(V, 0.0);
-            const double drift = (r - c - 0.5 * VMax) * dt;
+            const double drift = (r - c - 0.5 * VMax - lambda_ * (meanJump-1)) * dt;
             const double diffusion = sqrt(VMax * dt) * zS;
             S *= exp(drift + diffusion);
 
-- 
2.43.0


From 7ad876348e01b2ba4b1d61d9760b3251584e82e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 09/30] fix: draw either an upward or a downward Kou jump, not
 both

---
 src/model/kou_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index f936c74..e127218 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -59,9 +59,10 @@ namespace OptionPricer {
                 if (U < p_) {
                     const double upsideJump = (*generator_)(exponentialDistUp);
                     jumpSize += upsideJump;
+                } else {
+                    const double downsideJump = -(*generator_)(exponentialDistDown);
+                    jumpSize += downsideJump;
                 }
-                const double downsideJump = -(*generator_)(exponentialDistDown);
-                jumpSize += downsideJump;
             }
 
             // Update stock price
-- 
2.43.0


From 1a5302b93e41b3400f562388810ec6c0886465cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 10/30] fix: reject the Kou rates eta1 = 1 and eta2 = 0

---
 src/model/kou_model.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index e127218..06697e3 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -15,9 +15,9 @@ namespace OptionPricer {
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
         if (p_ < 0 || p_ > 1)
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ < 1)
+        if (eta1_ <= 1)
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ < 0)
+        if (eta2_ <= 0)
             throw std::invalid_argument("eta2 must be between larger than 0.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
-- 
2.43.0


From 6a45cbdb7ba23ed35edcdd7f88ac14e7cccd5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 11/30] fix: keep the variance discretization passed to
 HestonModel

---
 src/model/heston_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 4f1e276..6ec13df 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -27,7 +27,7 @@ namespace OptionPricer {
         */
 
         // Apply default discretization if nullptr is passed
-        if (!varDiscretization) {
+        if (!varDiscretization_) {
             varDiscretization_ = std::make_shared<CIRExplicitEulerDiscretization>();
         }
     }
-- 
2.43.0


From db9a17e80fe5091f1cc04353e9949bc8c68d9c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:55 +0000
Subject: [PATCH 12/30] fix: start the Laguerre basis with L1(x) = 1 - x

---
 src/numerical_analysis/basis_function/laguerre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numerical_analysis/basis_function/laguerre.cpp b/src/numerical_analysis/basis_function/laguerre.cpp
index 4ae3af8..4ba737b 100644
--- a/src/numerical_analysis/basis_function/laguerre.cpp
+++ b/src/numerical_analysis/basis_function/laguerre.cpp
@@ -9,7 +9,7 @@ namespace OptionPricer {
         basis.col(0).setOnes(); // P0(x) = 1
 
         if (numberBasis_ > 1)
-            basis.col(1) = x; // P1(x) = x
+            basis.col(1) = 1.0 - x.array(); // L1(x) = 1 - x
 
         for (int n = 2; n < numberBasis_; ++n) {
             basis.col(n) = ((2 * (n-1) + 1 - x.array()) * basis.col(n-1).array()
-- 
2.43.0


From cc64635fb5ddf3f2a3db7de225200724c52e2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 13/30] fix: do not reuse a builder's default stock model for
 another option or market

---
 .../monte_carlo/builder/mc_builder_american.cpp    |  7 ++++---
 .../monte_carlo/builder/mc_builder_asian.cpp       | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_barrier.cpp     | 14 ++++++++------
 .../monte_carlo/builder/mc_builder_single_path.cpp |  7 ++++---
 .../monte_carlo/builder/mc_lookback_builder.cpp    | 14 ++++++++------
 5 files changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/solver/monte_carlo/builder/mc_builder_american.cpp b/src/solver/monte_carlo/builder/mc_builder_american.cpp
index c3dd555..2915441 100644
--- a/src/solver/monte_carlo/builder/mc_builder_american.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_american.cpp
@@ -28,12 +28,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> AmericanMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel_,
+        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,
                                                   basisFunctionStrategy_, regressionStrategy_);
     }
 
diff --git a/src/solver/monte_carlo/builder/mc_builder_asian.cpp b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
index 4087ed6..20aa45d 100644
--- a/src/solver/monte_carlo/builder/mc_builder_asian.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_asian.cpp
@@ -13,12 +13,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> ArithmeticAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for ArithmeticAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<ArithmeticAsianMCPricer>(option_, marketData_, stockModel);
     }
 
     // Geometric Asian
@@ -32,12 +33,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> GeometricAsianMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for GeometricAsianMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<GeometricAsianMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
index a0cd91a..48df480 100644
--- a/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_barrier.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockInBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockInBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockInBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
     // Knock-Out
@@ -33,12 +34,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> KnockOutBarrierMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for KnockOutBarrierMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<KnockOutBarrierMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
index 7c1cb76..335f836 100644
--- a/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
+++ b/src/solver/monte_carlo/builder/mc_builder_single_path.cpp
@@ -14,12 +14,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> MCSinglePathBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for AmericanMCPricerBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_unique<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<SinglePathMCPricer>(option_, marketData_, stockModel);
     }
 
 }
diff --git a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
index f38412b..3c50d41 100644
--- a/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
+++ b/src/solver/monte_carlo/builder/mc_lookback_builder.cpp
@@ -15,12 +15,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FloatingStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FloatingStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FloatingStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
     // Fixed Strike
@@ -36,12 +37,13 @@ namespace OptionPricer {
 
     std::unique_ptr<MCPricer> FixedStrikeLookbackMCBuilder::build() {
         if (!option_) throw std::logic_error("Option is not set for FixedStrikeLookbackMCBuilder.");
-        if (!stockModel_) {
-            stockModel_ = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
+        auto stockModel = stockModel_; // Do not keep the default model for the next build
+        if (!stockModel) {
+            stockModel = std::make_shared<GeometricBrownianMotionModel>(option_->getID(),
                                                                          marketData_,
                                                                          std::make_shared<PseudoRandomNumberGenerator>(52));
         }
-        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel_);
+        return std::make_unique<FixedStrikeLookbackMCPricer>(option_, marketData_, stockModel);
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From a4b0f91e15b0bb397cd41e7305794767541fef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 14/30] fix: discount the American cash flows over steps where
 no path is in the money

---
 src/solver/monte_carlo/mc_american.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index ca479d4..2a719ee 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -87,6 +87,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // No path to exercise at this step
             }
         }
 
@@ -163,6 +165,8 @@ namespace OptionPricer {
                         americanPrices(i) *= discountFactor;
                     }
                 }
+            } else {
+                americanPrices *= discountFactor; // No path to exercise at this step
             }
         }
 
-- 
2.43.0


From 48400e20b032cce982322a58ab9b353397026a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 15/30] fix: allow immediate exercise of American options

---
 src/solver/monte_carlo/mc_american.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/solver/monte_carlo/mc_american.cpp b/src/solver/monte_carlo/mc_american.cpp
index 2a719ee..e36a199 100644
--- a/src/solver/monte_carlo/mc_american.cpp
+++ b/src/solver/monte_carlo/mc_american.cpp
@@ -92,8 +92,10 @@ namespace OptionPricer {
             }
         }
 
-        // Step 6: Compute the option price as the expected discounted payoffs
-        return americanPrices.mean() * discountFactor;
+        // Step 6: Compute the option price as the expected discounted payoffs,
+        // unless exercising immediately is worth more
+        const double S0 = marketData_->getStockData(option_->getID())->getPrice();
+        return std::max(option_->payoff(S0), americanPrices.mean() * discountFactor);
     }
 
     double AmericanMCPricer::brownianBridgePrice(const unsigned long &N) const{
@@ -170,8 +172,10 @@ namespace OptionPricer {
             }
         }
 
-        // Step 6: Compute the option price as the expected discounted payoffs
-        return americanPrices.mean() * discountFactor;
+        // Step 6: Compute the option price as the expected discounted payoffs,
+        // unless exercising immediately is worth more
+        const double S0 = marketData_->getStockData(option_->getID())->getPrice();
+        return std::max(option_->payoff(S0), americanPrices.mean() * discountFactor);
     }
 
 }
-- 
2.43.0


From f24f06eeaab4a65af7c61f23d5b9acd382d331b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 16/30] fix: discount the Black-Scholes boundary values over
 the time to maturity

---
 .../pde/one_factor/black_scholes_pde.cpp                    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
index 8f29f66..eb1f96d 100644
--- a/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
+++ b/src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp
@@ -38,7 +38,7 @@ namespace OptionPricer::PDE::OneFactor {
             return 0.0;
         }
 
-        return payoff->getK();
+        return payoff->getK() * std::exp(-marketData_->getR() * t); // t is the time to maturity
     }
 
     double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {
@@ -50,8 +50,8 @@ namespace OptionPricer::PDE::OneFactor {
         if (option_->getPayoff().getPayoffType() == PayoffType::Call) {
             const double K = payoff->getK();
             const double r = marketData_->getR();
-            const double T = option_->getT();
-            return x - K * std::exp(-r * (T - t));
+            const double c = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
+            return x * std::exp(-c * t) - K * std::exp(-r * t); // t is the time to maturity
         }
 
         return 0.0;
-- 
2.43.0


From 093f6b953cecc41022ae2e84e11ce590d4ffaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 17/30] fix: march exactly N-1 time steps in the FDM solvers

---
 .../solver/one_factor/base_fdm_solver.cpp                   | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index 99b40c9..c283416 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -46,8 +46,10 @@ namespace OptionPricer::FDM::OneFactor {
     }
 
     std::vector<double> FDMSolver::solve() {
-        while(tCurr < tDom_) {
-            tCurr = tPrev + dt;
+        if (solved) return newPrices;
+        newPrices = oldPrices;
+        for (unsigned long n = 1; n < N_; ++n) { // N_ points in time are N_-1 steps
+            tCurr = static_cast<double>(n) * dt;
             calculateBoundaryConditions();
             calculateInnerDomain(); // To be overiden in concrete classes
             oldPrices = newPrices;
-- 
2.43.0


From 2b66893196f1c1c7a7bbc399e870440f20b52b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 18/30] fix: solve the Crank-Nicolson system once it is
 assembled

---
 .../one_factor/crank_nicolson_fdm_solver.cpp     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index d2ffaa4..10ef7ef 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -89,17 +89,17 @@ namespace OptionPricer::FDM::OneFactor {
             if (j < J_-2) {
                 b[j-1] += gamma * oldPrices[j+1];
             }
+        }
 
-            // Convert triplets to sparse matrices
-            A.setFromTriplets(tripletListA.begin(), tripletListA.end());
+        // Convert triplets to sparse matrices
+        A.setFromTriplets(tripletListA.begin(), tripletListA.end());
 
-            // Solve for the matrix system A * newPrices = b
-            Eigen::VectorXd solution = matrixSolver_->solve(A, b);
+        // Solve for the matrix system A * newPrices = b
+        Eigen::VectorXd solution = matrixSolver_->solve(A, b);
 
-            // Copy the solution to the internal prices
-            for (unsigned long j = 1; j < (J_-1); ++j) {
-                newPrices[j] = solution[j-1];
-            }
+        // Copy the solution to the internal prices
+        for (unsigned long j = 1; j < (J_-1); ++j) {
+            newPrices[j] = solution[j-1];
         }
     }
 
-- 
2.43.0


From 5aa4404d1427a998428d6e240ec7e60d77dd0533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 19/30] fix: include the boundary values in the explicit part
 of Crank-Nicolson

---
 .../solver/one_factor/crank_nicolson_fdm_solver.cpp    | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
index 10ef7ef..f290689 100644
--- a/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp
@@ -81,14 +81,8 @@ namespace OptionPricer::FDM::OneFactor {
             beta = -dx2 + dtSig - reaction;    // RHS (explicit) main diagonal
             gamma = -0.5 * (dtSig + dtSig2);  // RHS (explicit) upper diagonal
 
-            // Add the explicit part
-            b[j-1] += beta * oldPrices[j];
-            if (j > 1) {
-                b[j-1] += alpha * oldPrices[j-1];
-            }
-            if (j < J_-2) {
-                b[j-1] += gamma * oldPrices[j+1];
-            }
+            // Add the explicit part, including the known boundary values
+            b[j-1] += alpha * oldPrices[j-1] + beta * oldPrices[j] + gamma * oldPrices[j+1];
         }
 
         // Convert triplets to sparse matrices
-- 
2.43.0


From 7f15fa4f9fc280949ddf8b59c7f655b96372d297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 20/30] fix: set the explicit Euler boundary values at the new
 time

---
 .../solver/one_factor/euler_explicit_fdm_solver.cpp           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
index f2a87f5..0fa73f3 100644
--- a/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.cpp
@@ -13,8 +13,8 @@ namespace OptionPricer::FDM::OneFactor {
     EulerExplicitFDM::~EulerExplicitFDM() = default;
 
     void EulerExplicitFDM::calculateBoundaryConditions() {
-        newPrices.front() = pde_->boundaryLeft(tPrev, xValues.front());
-        newPrices.back() = pde_->boundaryRight(tPrev, xValues.back());
+        newPrices.front() = pde_->boundaryLeft(tCurr, xValues.front());
+        newPrices.back() = pde_->boundaryRight(tCurr, xValues.back());
     }
 
     void EulerExplicitFDM::calculateInnerDomain() {
-- 
2.43.0


From 67dff42fe42273f7d81aebc4d4fc05136566b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 21/30] fix: reject a generator dimension of zero

---
 src/random/number_generator/base_generator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random/number_generator/base_generator.cpp b/src/random/number_generator/base_generator.cpp
index 163f81b..b574065 100644
--- a/src/random/number_generator/base_generator.cpp
+++ b/src/random/number_generator/base_generator.cpp
@@ -4,6 +4,7 @@ namespace OptionPricer {
 
     NumberGenerator::NumberGenerator(const unsigned int &dim)
     : dim_(dim) {
+        validateDim();
         std::random_device rd;
         seed_ = rd();
     }
@@ -13,6 +14,7 @@ namespace OptionPricer {
         if (seed_ < 0) {
             throw std::invalid_argument("seed parameter must be a positive integer");
         }
+        validateDim();
     }
 
     NumberGenerator::~NumberGenerator() = default;
@@ -22,7 +24,7 @@ namespace OptionPricer {
     }
 
     void NumberGenerator::validateDim() const {
-        if (dim_ < 0) {
+        if (dim_ == 0) {
             throw std::invalid_argument("dim must be a positive integer");
         }
     }
-- 
2.43.0


From 73410e1844a8d5687b592915e8ad299bf6a7c104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 22/30] fix: allow observers to be added or removed while they
 are notified

---
 src/market_data/market_data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/market_data/market_data.cpp b/src/market_data/market_data.cpp
index e299158..8c1560a 100644
--- a/src/market_data/market_data.cpp
+++ b/src/market_data/market_data.cpp
@@ -33,7 +33,8 @@ namespace OptionPricer {
     }
 
     void MarketData::notifyObserver(const std::string& id) const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // Observers may be added or removed during the notification
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 if (obs->getID() == id) {
                     obs->update();
@@ -44,7 +45,8 @@ namespace OptionPricer {
 
     // Overloaded method that notify all observers
     void MarketData::notifyObservers() const {
-        for (const auto& observer : observers_) {
+        const auto observers = observers_; // Observers may be added or removed during the notification
+        for (const auto& observer : observers) {
             if (auto obs = observer.lock()) {
                 obs->update();
             }
-- 
2.43.0


From 52e1932269dc9eb3acb6324a7141be6ba8f834dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 23/30] fix: update the shared stock data when a stock is added
 again

---
 include/market_data/market_data.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/market_data/market_data.h b/include/market_data/market_data.h
index 0675bae..ec3c636 100644
--- a/include/market_data/market_data.h
+++ b/include/market_data/market_data.h
@@ -35,8 +35,14 @@ namespace OptionPricer {
         template<typename... Args>
         void addStock(const std::string& ticker, Args&&... args) {
             // Perfect forwarding C++17 to preserve rvalue/lvalue ness
-            stockDataMap_[ticker] = std::make_shared<StockData>(std::forward<Args>(args)...);
-        } // Potentially need to check if stockDataMap_[ticker] already exists
+            auto stockData = std::make_shared<StockData>(std::forward<Args>(args)...);
+            if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {
+                *it->second = *stockData; // Keep the StockData object shared with the models
+                notifyObserver(ticker);
+            } else {
+                stockDataMap_[ticker] = std::move(stockData);
+            }
+        }
 
         // Update & access StockData through the MarketData singleton
         void updateStockPrice(const std::string& ticker, double S);
-- 
2.43.0


From 2e435c6442d45fa3427dd8c43da3f39cb670c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:05 +0000
Subject: [PATCH 24/30] fix: compare option type, underlying and barrier in
 Option::operator==

---
 include/option/base_option.h                   | 3 +++
 include/option/path_dependent/barrier_option.h | 2 ++
 src/option/base_option.cpp                     | 7 ++++++-
 src/option/path_dependent/barrier_option.cpp   | 5 +++++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/option/base_option.h b/include/option/base_option.h
index 7fb2e0f..63fc1ae 100644
--- a/include/option/base_option.h
+++ b/include/option/base_option.h
@@ -57,6 +57,9 @@ namespace OptionPricer {
         Option(const std::string& ticker, std::unique_ptr<Payoff> payoff, const double& T,
             std::shared_ptr<IMarketData> marketData); // Parameter constructor
 
+        // Compare the terms specific to an option type (same dynamic type), overridden where there are any
+        [[nodiscard]] virtual bool compare(const Option& other) const;
+
         double T_; // Maturity of the Option
         std::unique_ptr<Payoff> payoff_; // Unique ptr to Payoff functor
         std::shared_ptr<IMarketData> marketData_; // Shared ptr to IMarketData interface
diff --git a/include/option/path_dependent/barrier_option.h b/include/option/path_dependent/barrier_option.h
index 44eae86..704057d 100644
--- a/include/option/path_dependent/barrier_option.h
+++ b/include/option/path_dependent/barrier_option.h
@@ -20,6 +20,8 @@ namespace OptionPricer {
         BarrierOption(const std::string& ticker, std::unique_ptr<Payoff> payoff, const double& T, const double& B,
                       BarrierDirection direction, std::shared_ptr<IMarketData> marketData);
 
+        [[nodiscard]] bool compare(const Option& other) const override;
+
         double B_; // Barrier level
         BarrierDirection direction_;
         std::unique_ptr<Payoff> payoff_;
diff --git a/src/option/base_option.cpp b/src/option/base_option.cpp
index 6c9d7af..41234f8 100644
--- a/src/option/base_option.cpp
+++ b/src/option/base_option.cpp
@@ -39,10 +39,15 @@ namespace OptionPricer {
     }
 
     bool Option::operator==(const Option &other) const {
-        return (T_ == other.T_ && *payoff_ == *other.payoff_ &&
+        if (typeid(*this) != typeid(other)) return false;
+        return (id_ == other.id_ && T_ == other.T_ && *payoff_ == *other.payoff_ && compare(other) &&
           *marketData_->getStockData(id_) == *other.marketData_->getStockData(other.id_));
     }
 
+    bool Option::compare(const Option &other) const {
+        return true;
+    }
+
     bool Option::operator!=(const Option &other) const {
         return !(*this == other);
     }
diff --git a/src/option/path_dependent/barrier_option.cpp b/src/option/path_dependent/barrier_option.cpp
index b7f60bd..b3fd320 100644
--- a/src/option/path_dependent/barrier_option.cpp
+++ b/src/option/path_dependent/barrier_option.cpp
@@ -20,6 +20,11 @@ namespace OptionPricer {
     : PathDependentOption(ticker, std::move(payoff), T, std::move(marketData)),
         B_(B), direction_(direction) {}
 
+    bool BarrierOption::compare(const Option &other) const {
+        const auto* otherBarrier = dynamic_cast<const BarrierOption*>(&other);
+        return otherBarrier && B_ == otherBarrier->B_ && direction_ == otherBarrier->direction_;
+    }
+
     // Knock-In Barrier
     KnockInBarrierOption::~KnockInBarrierOption() = default;
 
-- 
2.43.0


From e5edf04ab24649a622a936df055f451388ca7b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:51 +0000
Subject: [PATCH 25/30] fix: skip the origin of the Faure sequence

---
 src/random/number_generator/faure_quasi_random_generator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/random/number_generator/faure_quasi_random_generator.cpp b/src/random/number_generator/faure_quasi_random_generator.cpp
index 0f63a0f..7c1611d 100644
--- a/src/random/number_generator/faure_quasi_random_generator.cpp
+++ b/src/random/number_generator/faure_quasi_random_generator.cpp
@@ -4,14 +4,14 @@ namespace OptionPricer {
 
     FaureGenerator::FaureGenerator(const unsigned int &dim)
     : QuasiRandomNumberGenerator(dim), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(std::max(seed_, 1u)); // Point 0 is the origin, outside the open unit cube
         faureQrng_.generate(point_.begin(), point_.end()); // Initialize the point
     }
 
     FaureGenerator::FaureGenerator(const unsigned int &dim,
                                    const unsigned int &seed)
     : QuasiRandomNumberGenerator(dim, seed), faureQrng_(dim_) {
-        faureQrng_.seed(seed_);
+        faureQrng_.seed(std::max(seed_, 1u)); // Point 0 is the origin, outside the open unit cube
         faureQrng_.generate(point_.begin(), point_.end());
     }
 
-- 
2.43.0


From 8a102130f5be469c8e9d06225f7c35a58a48706b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 26/30] fix: reject a NaN level in the inverse normal
 distribution

---
 src/random/distribution/standard_normal_distribution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/random/distribution/standard_normal_distribution.cpp b/src/random/distribution/standard_normal_distribution.cpp
index d45a22b..21e5321 100644
--- a/src/random/distribution/standard_normal_distribution.cpp
+++ b/src/random/distribution/standard_normal_distribution.cpp
@@ -12,7 +12,7 @@ namespace OptionPricer {
          * for approximating the inverse cumulative distribution function (CDF)
          * of the standard normal distribution, as described in Glasserman [2004].
          */
-        if (quantile <= 0.0 || quantile >= 1.0) {
+        if (!(quantile > 0.0 && quantile < 1.0)) {
             throw std::invalid_argument("quantile must be between (0,1)");
         }
 
-- 
2.43.0


From 807750bf0c354ea564b28ace76dd9839d17fa8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:51 +0000
Subject: [PATCH 27/30] fix: reject NaN parameters in the distributions

---
 src/random/distribution/continuous_uniform_distrib.cpp | 2 +-
 src/random/distribution/exponential_distr.cpp          | 2 +-
 src/random/distribution/gamma_distrib.cpp              | 2 +-
 src/random/distribution/normal_distrib.cpp             | 2 +-
 src/random/distribution/poisson_distrib.cpp            | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/random/distribution/continuous_uniform_distrib.cpp b/src/random/distribution/continuous_uniform_distrib.cpp
index 0558a0a..f98a095 100644
--- a/src/random/distribution/continuous_uniform_distrib.cpp
+++ b/src/random/distribution/continuous_uniform_distrib.cpp
@@ -3,7 +3,7 @@
 namespace OptionPricer {
     ContinuousUniformDistribution::ContinuousUniformDistribution(const double &a, const double &b)
     : a_(a), b_(b), uniform_dist_(a_, b_) {
-        if (a_ >= b_)
+        if (!(a_ < b_))
             throw std::invalid_argument("a must lower than b");
     }
 
diff --git a/src/random/distribution/exponential_distr.cpp b/src/random/distribution/exponential_distr.cpp
index 677baaa..d561b62 100644
--- a/src/random/distribution/exponential_distr.cpp
+++ b/src/random/distribution/exponential_distr.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     ExponentialDistribution::ExponentialDistribution(const double &lambda)
     : lambda_(lambda), exponential_dist_(lambda_) {
-        if (lambda_ <= 0)
+        if (!(lambda_ > 0))
             throw std::invalid_argument("lambda must be positive");
     }
 
diff --git a/src/random/distribution/gamma_distrib.cpp b/src/random/distribution/gamma_distrib.cpp
index e2d871f..a72f012 100644
--- a/src/random/distribution/gamma_distrib.cpp
+++ b/src/random/distribution/gamma_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     GammaDistribution::GammaDistribution(const double &alpha, const double &beta)
     : alpha_(alpha), beta_(beta), gamma_dist_(alpha_, 1.0 / beta_) {
-        if (alpha_ <= 0 || beta_ <= 0) {
+        if (!(alpha_ > 0 && beta_ > 0)) {
             throw std::invalid_argument("alpha (shape) and beta (rate) parameters must be positive");
         }
     }
diff --git a/src/random/distribution/normal_distrib.cpp b/src/random/distribution/normal_distrib.cpp
index 9828f7e..976c6ec 100644
--- a/src/random/distribution/normal_distrib.cpp
+++ b/src/random/distribution/normal_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     NormalDistribution::NormalDistribution(const double &mu, const double &sigma)
     : mu_(mu), sigma_(sigma), normal_dist_(mu_, sigma_) {
-        if (sigma_ <= 0)
+        if (!(sigma_ > 0))
             throw std::invalid_argument("sigma must be positive");
     }
 
diff --git a/src/random/distribution/poisson_distrib.cpp b/src/random/distribution/poisson_distrib.cpp
index 56938b0..4b595f3 100644
--- a/src/random/distribution/poisson_distrib.cpp
+++ b/src/random/distribution/poisson_distrib.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     PoissonDistribution::PoissonDistribution(const double& lambda)
     : lambda_(lambda), poisson_dist_(lambda_) {
-        if (lambda_ <= 0.0) {
+        if (!(lambda_ > 0.0)) {
             throw std::invalid_argument("lambda must be positive");
         }
     }
-- 
2.43.0


From 8aaec6e0eb9ba3735a13b9aab65358dea256d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 28/30] fix: reject NaN parameters in the models

---
 src/model/bates_model.cpp                 | 4 ++--
 src/model/heston_model.cpp                | 4 ++--
 src/model/kou_model.cpp                   | 6 +++---
 src/model/merton_jump_diffusion_model.cpp | 2 +-
 src/model/variance_gamma_model.cpp        | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/model/bates_model.cpp b/src/model/bates_model.cpp
index 9522ed3..45736e7 100644
--- a/src/model/bates_model.cpp
+++ b/src/model/bates_model.cpp
@@ -16,10 +16,10 @@ namespace OptionPricer {
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           kappa_(kappa), theta_(theta), sigma_v_(sigma_v), rho_(rho), v0_(v0),
           lambda_(lambda), muJ_(muJ), sigmaJ_(sigmaJ), varDiscretization_(std::move(varDiscretization)) {
-        if (v0_ <= 0.0 || kappa_ <= 0.0 || sigma_v_ <= 0.0 || sigmaJ_ <= 0.0) {
+        if (!(v0_ > 0.0 && kappa_ > 0.0 && sigma_v_ > 0.0 && sigmaJ_ > 0.0)) {
             throw std::invalid_argument("v0, kappa, sigma_v, and sigmaJ must be positive");
         }
-        if (rho_ < -1.0 || rho_ > 1.0) {
+        if (!(rho_ >= -1.0 && rho_ <= 1.0)) {
             throw std::invalid_argument("rho must be between -1 and 1");
         }
         if (!varDiscretization_)
diff --git a/src/model/heston_model.cpp b/src/model/heston_model.cpp
index 6ec13df..6cd8f55 100644
--- a/src/model/heston_model.cpp
+++ b/src/model/heston_model.cpp
@@ -13,10 +13,10 @@ namespace OptionPricer {
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           kappa_(kappa), theta_(theta), sigma_v_(sigma_v), rho_(rho), v0_(v0),
           varDiscretization_(std::move(varDiscretization))  {
-        if (rho_ < -1.0 || rho_ > 1.0) {
+        if (!(rho_ >= -1.0 && rho_ <= 1.0)) {
             throw std::logic_error("Correlation rho must be between [-1,1]");
         }
-        if (v0_ < 0.0 || sigma_v < 0.0) {
+        if (!(v0_ >= 0.0 && sigma_v >= 0.0)) {
             throw std::logic_error("Initial volatility v0 and vol of vol sigma_v must be non-negative");
         }
     /*
diff --git a/src/model/kou_model.cpp b/src/model/kou_model.cpp
index 06697e3..d457824 100644
--- a/src/model/kou_model.cpp
+++ b/src/model/kou_model.cpp
@@ -13,11 +13,11 @@ namespace OptionPricer {
                        const double &eta1, const double &eta2)
     : StockModel(ticker, std::move(marketData), std::move(generator)),
               lambda_(lambda), p_(p), eta1_(eta1), eta2_(eta2) {
-        if (p_ < 0 || p_ > 1)
+        if (!(p_ >= 0 && p_ <= 1))
             throw std::invalid_argument("p must be between [0,1].");
-        if (eta1_ <= 1)
+        if (!(eta1_ > 1))
             throw std::invalid_argument("eta1 must be between larger than 1.");
-        if (eta2_ <= 0)
+        if (!(eta2_ > 0))
             throw std::invalid_argument("eta2 must be between larger than 0.");
         muJ_ = p_ * (eta1_ / (eta1_-1)) + (1-p_) * (eta2_ / (eta2_+1));
     }
diff --git a/src/model/merton_jump_diffusion_model.cpp b/src/model/merton_jump_diffusion_model.cpp
index 5268cc0..9461df9 100644
--- a/src/model/merton_jump_diffusion_model.cpp
+++ b/src/model/merton_jump_diffusion_model.cpp
@@ -13,7 +13,7 @@ namespace OptionPricer {
                                                        const double &lambda, const double &muJ, const double &sigmaJ)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
         lambda_(lambda), muJ_(muJ), sigmaJ_(sigmaJ) {
-        if (sigmaJ_ <= 0)
+        if (!(sigmaJ_ > 0))
             throw std::invalid_argument("sigmaJ must be positive");
     }
 
diff --git a/src/model/variance_gamma_model.cpp b/src/model/variance_gamma_model.cpp
index ef60b7b..bd6de74 100644
--- a/src/model/variance_gamma_model.cpp
+++ b/src/model/variance_gamma_model.cpp
@@ -13,7 +13,7 @@ namespace OptionPricer {
                                            const double &nu, const double &theta)
         : StockModel(ticker, std::move(marketData), std::move(generator)),
           nu_(nu), theta_(theta) {
-        if (nu_ <= 0.0) {
+        if (!(nu_ > 0.0)) {
             throw std::invalid_argument("nu must be positive");
         }
     }
-- 
2.43.0


From 14e4a5abfab949287f2320bd635f3f89085e830f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:26 +0000
Subject: [PATCH 29/30] fix: reject a NaN penalty in the ridge and lasso
 regressions

---
 src/numerical_analysis/regression/lasso.cpp | 2 +-
 src/numerical_analysis/regression/ridge.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/numerical_analysis/regression/lasso.cpp b/src/numerical_analysis/regression/lasso.cpp
index 319cc8c..60f62c8 100644
--- a/src/numerical_analysis/regression/lasso.cpp
+++ b/src/numerical_analysis/regression/lasso.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     LassoRegression::LassoRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     LassoRegression::~LassoRegression() = default;
diff --git a/src/numerical_analysis/regression/ridge.cpp b/src/numerical_analysis/regression/ridge.cpp
index d05ee96..c1b8a26 100644
--- a/src/numerical_analysis/regression/ridge.cpp
+++ b/src/numerical_analysis/regression/ridge.cpp
@@ -4,7 +4,7 @@ namespace OptionPricer {
 
     RidgeRegression::RidgeRegression(const double &lambda)
     : lambda_(lambda) {
-        if (lambda_ < 0) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
+        if (!(lambda_ >= 0)) throw std::invalid_argument("Regularization parameter lambda must be non-negative");
     }
 
     RidgeRegression::~RidgeRegression() = default;
-- 
2.43.0


From fe426a89d9e2e4086f83a97007e4b25861c77031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:40 +0000
Subject: [PATCH 30/30] fix: restart the finite difference march when an
 earlier attempt threw part way

---
 .../solver/one_factor/base_fdm_solver.cpp                      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
index c283416..bef7df0 100644
--- a/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
+++ b/src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp
@@ -47,6 +47,9 @@ namespace OptionPricer::FDM::OneFactor {
 
     std::vector<double> FDMSolver::solve() {
         if (solved) return newPrices;
+        // Restart from the payoff: an earlier attempt may have thrown part way through
+        tPrev = 0.0;
+        calculateInitialConditions();
         newPrices = oldPrices;
         for (unsigned long n = 1; n < N_; ++n) { // N_ points in time are N_-1 steps
             tCurr = static_cast<double>(n) * dt;
-- 
2.43.0

