From df7be3f781d00f9c75614638f717f11034aeb5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:47 +0000
Subject: [PATCH 01/37] fix: neural automaton with different internal and
 external channel counts

identity and neighborhood convolutions both produce internal_channels maps, so
the first weight layer takes 2 * internal_channels inputs; with
external_channels + internal_channels a step raised a RuntimeError unless both
counts were equal.
---
 yuca/ca/neural.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 014c05e..b5f3248 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -266,7 +266,7 @@ class NCA(CA):
         
         self.weights_layer = nn.Sequential(\
                 nn.Conv2d(\
-                    self.external_channels + self.internal_channels,\
+                    2 * self.internal_channels,\
                     self.hidden_channels, 1, \
                     padding=0, \
                     padding_mode = self.conv_mode, bias=False),\
-- 
2.43.0


From b576bf5205bab1cd4dc07ef2abf8877698f1a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 02/37] fix: get_dt after a step of CODE or RandomStepCA

these automata store the step size they chose as a plain number, on which
get_dt called .item() and raised an AttributeError.
---
 yuca/ca/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b9111ce..b1975c3 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -249,8 +249,11 @@ class CA(nn.Module):
 
     def get_dt(self):
 
-        # self.dt is a torch tensor
-        return self.dt.item()
+        # self.dt is a torch tensor, or a number for CA that choose their own dt
+        if type(self.dt) is torch.Tensor:
+            return self.dt.item()
+
+        return self.dt
 
     def get_dx(self):
 
-- 
2.43.0


From bcdeb7322c39a140f4bd9ef721ed08a7e60536ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:27 +0000
Subject: [PATCH 03/37] fix: get_frame applies the alive mask like forward does

---
 yuca/ca/common.py     | 3 +++
 yuca/ca/continuous.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index b1975c3..26f6851 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -340,6 +340,9 @@ class CA(nn.Module):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9134d0a..351745b 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -565,6 +565,9 @@ class CCA(CA):
 
     def get_frame(self, universe, mode=0):
 
+        if universe.shape[1] >= 4:
+            universe = self.alive_mask(universe)
+
         identity = self.id_conv(universe)
         neighborhoods = self.neighborhood_conv(universe)
 
-- 
2.43.0


From e5667ae4db0e5a2d4ac5013f2ff6ba309e29a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:10 +0000
Subject: [PATCH 04/37] fix: adaptive automaton with a previous step below half
 the lower limit

---
 yuca/code.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/code.py b/yuca/code.py
index 9cb4cf9..f731fec 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -61,7 +61,7 @@ class CODE(CCA):
         
         keep = False
         
-        current_step = min([self.prev_dt * 2, self.max_dt])
+        current_step = max([min([self.prev_dt * 2, self.max_dt]), self.min_dt])
         # Don't track gradients while estimating step size
         with torch.no_grad():
 
-- 
2.43.0


From 57669405122871476e0d65524277a4e817cf2dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 05/37] fix: set_params keeps the configured kernel family

set_params rebuilt every kernel as a Gaussian mixture, whatever family the
kernel had been configured with, and failed without kernel parameters.
---
 yuca/ca/common.py     | 41 +++++++++++++++++++++++++++++++++++++++++
 yuca/ca/continuous.py | 19 +++++++------------
 yuca/ca/neural.py     | 11 ++---------
 3 files changed, 50 insertions(+), 21 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 26f6851..02ef17b 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -26,6 +26,7 @@ from yuca.configs import get_orbium_config, \
 
 from yuca.kernels import get_kernel, \
         get_gaussian_kernel, \
+        get_gaussian_mixture_kernel, \
         get_dogaussian_kernel, \
         get_gaussian_edge_kernel, \
         get_cosx2_kernel, \
@@ -285,6 +286,46 @@ class CA(nn.Module):
                 self.kernel_params = np.append(self.kernel_params, \
                         np.array(kernel_kwargs[key]))
 
+    def set_kernel_params(self, params):
+        """
+        rebuild the neighborhood kernel with new parameters. 
+        The kernel keeps the family (e.g. Gaussian, MooreLike) it was configured with, 
+        a CA that was never configured has a Gaussian mixture kernel
+        """
+
+        if self.neighborhood_kernel_config is None:
+
+            nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
+                    parameters=params)
+        else:
+            
+            kernel_kwargs = self.neighborhood_kernel_config.get("kernel_kwargs", {})
+            new_kwargs = {}
+
+            param_start = 0
+
+            for key in kernel_kwargs.keys():
+                shape = np.array(kernel_kwargs[key]).shape
+                param_stop = param_start + int(np.prod(shape))
+
+                if len(shape):
+                    new_kwargs[key] = params[param_start:param_stop].reshape(shape)
+                else:
+                    new_kwargs[key] = float(params[param_start])
+
+                param_start = param_stop
+
+            self.neighborhood_kernel_config = dict(self.neighborhood_kernel_config, \
+                    kernel_kwargs=new_kwargs)
+
+            nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
+
+        self.kernel_params = params
+
+        self.add_neighborhood_kernel(nbhd_kernel)
+        self.initialize_neighborhood_layer()
+        self.to_device(self.my_device)
+
     def set_kernel_config(self, kernel_config):
 
         self.neighborhood_kernel_config = kernel_config
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 351745b..440b6be 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -119,8 +119,7 @@ class CCA(CA):
 
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         # update self.kernel_radius
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
@@ -639,7 +638,9 @@ class CCA(CA):
 
         params = np.append(params, self.get_genesis_params())
         params = np.append(params, self.get_persistence_params())
-        params = np.append(params, self.kernel_params)
+
+        if self.kernel_params is not None:
+            params = np.append(params, self.kernel_params)
 
         return params
 
@@ -678,15 +679,9 @@ class CCA(CA):
 
                 param_start = param_stop
 
-        param_stop = param_start + self.kernel_params.shape[0]
-        self.kernel_params = params[param_start:param_stop]
-
-        nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                parameters=self.kernel_params)
-
-        self.add_neighborhood_kernel(nbhd_kernel)
-        self.initialize_neighborhood_layer()
-        self.to_device(self.my_device)
+        if self.kernel_params is not None:
+            param_stop = param_start + self.kernel_params.size
+            self.set_kernel_params(params[param_start:param_stop])
 
     def no_grad(self):
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index b5f3248..e01964d 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -355,15 +355,8 @@ class NCA(CA):
             param_start = param_stop
 
         if self.kernel_params is not None:
-            param_stop = param_start + self.kernel_params.shape[0]
-            self.kernel_params = params[param_start:param_stop]
-
-            nbhd_kernel = get_gaussian_mixture_kernel(radius=self.kernel_radius, \
-                    parameters=self.kernel_params)
-
-            self.add_neighborhood_kernel(nbhd_kernel)
-            self.initialize_neighborhood_layer()
-            self.to_device(self.my_device)
+            param_stop = param_start + self.kernel_params.size
+            self.set_kernel_params(params[param_start:param_stop])
 
     def no_grad(self):
 
-- 
2.43.0


From f3cae629956da11b535bb8c954749135b0554272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 06/37] fix: saved configs keep the current growth functions

make_config stored a placeholder rule for automata that were never
configured, dropped the intervals of SmoothIntervals and the amplitudes of
mixtures, and kept stale parameters of other families after set_params.
---
 yuca/ca/continuous.py | 65 ++++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 440b6be..94bfb63 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -203,39 +203,10 @@ class CCA(CA):
             neighborhood_kernel_config = self.neighborhood_kernel_config
 
         # config for genesis and persistence functions
+        genesis_config = self.make_fn_config(self.genesis_fns[0], self.genesis_fn_config)
+        persistence_config = self.make_fn_config(self.persistence_fns[0], \
+                self.persistence_fn_config)
 
-        # genesis 
-        if self.genesis_fn_config is None:
-            print("genesis fn config is missing, assuming GaussianMixture")
-            #assert False,  "not implemented exception"
-            genesis_config = {"name": "GaussianMixture", \
-                    "parameters": np.array([0.15000001, 0.015     ]), \
-                    "mode": 1}
-            self.genesis_fn_config = genesis_config
-        else:
-            genesis_config = self.genesis_fn_config
-            genesis_config["parameters"] = self.get_genesis_params()
-
-        #if "parameters" in genesis_config.keys():
-
-        #    genesis_config["parameters"] = self.get_genesis_params()
-            
-        # persistence
-        if self.persistence_fn_config is None:
-            print("persistence fn config is missing, assuming GaussianMixture")
-            #assert False,  "not implemented exception"
-            persistence_config = {"name": "GaussianMixture", \
-                    "parameters": np.array([0.15000001, 0.015     ]), \
-                    "mode": 1}
-            self.persistence_fn_config = persistence_config
-        else:
-            persistence_config = self.persistence_fn_config
-            persistence_config["parameters"] = self.get_persistence_params()
-
-        #if "parameters" in persistence_config.keys():
-
-        #    persistence_config["parameters"] = self.get_persistence_params()
-            
         config["id_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
@@ -256,6 +227,36 @@ class CCA(CA):
 
         return copy.deepcopy(config)
 
+    def make_fn_config(self, update_fn, fn_config=None):
+        """
+        config for a genesis or persistence function, with its current parameters
+        """
+
+        config = {} if fn_config is None else dict(fn_config)
+        config["name"] = type(update_fn).__name__
+
+        for key in ["mode", "dx", "alpha"]:
+            if hasattr(update_fn, key):
+                config[key] = getattr(update_fn, key)
+
+        for key in ["mu", "sigma", "coefficients"]:
+            if hasattr(update_fn, key):
+                config[key] = getattr(update_fn, key).detach().cpu().clone()
+
+        if config["name"] == "GaussianMixture":
+            # (amplitude, mu, sigma) for each gaussian
+            parameters = []
+            for amplitude, gaussian in zip(update_fn.amplitudes, update_fn.gaussians):
+                parameters.extend([amplitude.item(), gaussian.mu.item(), \
+                        gaussian.sigma.item()])
+
+            config["parameters"] = np.array(parameters)
+
+        elif config["name"] == "SmoothIntervals":
+            config["parameters"] = update_fn.intervals
+
+        return config
+
     def save_config(self, filepath, config=None):
 
         if config is None:
-- 
2.43.0


From 135cad2e83ff7ce9afa9c2f0d29c6dd475e8f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 07/37] fix: saved configs keep the identity kernel

make_config wrote it under a name that load_config does not read, and never
knew which identity kernel had been loaded.
---
 yuca/ca/continuous.py         | 8 +++++---
 yuca/ca/neural.py             | 8 +++++---
 yuca/ca/reaction_diffusion.py | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 94bfb63..2ff67ae 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -109,10 +109,12 @@ class CCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -207,7 +209,7 @@ class CCA(CA):
         persistence_config = self.make_fn_config(self.persistence_fns[0], \
                 self.persistence_fn_config)
 
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
         config["genesis_config"] = genesis_config
         config["persistence_config"] = persistence_config
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index e01964d..962a10b 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -139,10 +139,12 @@ class NCA(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -234,7 +236,7 @@ class NCA(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         if "dt" not in config.keys():
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 3e9be21..dc5a416 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -77,10 +77,12 @@ class RxnDfn(CA):
 
         self.config = config
 
-        if "identity_kernel_config" not in config.keys():
+        self.id_kernel_config = config.get("identity_kernel_config", None)
+
+        if self.id_kernel_config is None:
             self.add_identity_kernel()
         else: 
-            id_kernel = get_kernel(config["identity_kernel_config"])
+            id_kernel = get_kernel(self.id_kernel_config)
             self.add_identity_kernel(kernel = id_kernel)
 
         self.initialize_id_layer()
@@ -180,7 +182,7 @@ class RxnDfn(CA):
         # nca params
         config["params"] = self.get_params()
             
-        config["id_kernel_config"] = id_kernel_config
+        config["identity_kernel_config"] = id_kernel_config
         config["neighborhood_kernel_config"] = neighborhood_kernel_config
 
         config["dt"] = self.dt.item() 
-- 
2.43.0


From ec8d31f88cef7353f9a7bc333a8c103d7edef744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 08/37] fix: saved configs do not refer to the file the
 automaton was restored from

Loading such a config first restored the other file, and recursed without
end when the config had been saved over it.
---
 yuca/ca/continuous.py | 4 +++-
 yuca/ca/neural.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 2ff67ae..298912c 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -218,7 +218,9 @@ class CCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels, and all kwargs for instantiating ca
-        config["instant_kwargs"] = self.instant_kwargs
+        # (the files this ca was itself restored from are not part of its configuration)
+        config["instant_kwargs"] = {key: value for key, value in self.instant_kwargs.items() \
+                if key not in ("ca_config", "input_filepath")}
 
         config["instant_kwargs"]["kernel_radius"] = self.kernel_radius
         config["instant_kwargs"]["kernel_peaks"] = self.kernel_peaks
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 962a10b..e3b029d 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -243,7 +243,9 @@ class NCA(CA):
             config["dt"] = self.dt 
 
         # include activation and number hidden channels
-        config["instant_kwargs"] = self.instant_kwargs
+        # (the files this ca was itself restored from are not part of its configuration)
+        config["instant_kwargs"] = {key: value for key, value in self.instant_kwargs.items() \
+                if key not in ("ca_config", "input_filepath")}
         config["instant_kwargs"]["activation"] = str(self.act).split("'")[1].split(".")[-1]
         config["instant_kwargs"]["dropout_rate"] = self.dropout_rate
 
-- 
2.43.0


From 0e273fc0efd462c8db0b544fdf805c402edc57c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 09/37] fix: reaction-diffusion automaton reports the kernel
 radius it loaded

---
 yuca/ca/reaction_diffusion.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index dc5a416..466d8e1 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -89,6 +89,7 @@ class RxnDfn(CA):
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
         self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.kernel_radius = self.neighborhood_kernel_config["radius"]
 
         self.add_neighborhood_kernel(nbhd_kernel)
         self.initialize_neighborhood_layer()
-- 
2.43.0


From f6dc9e20e3fcb56d9c9eabcecc4fb872970448a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 10/37] fix: automata do not share the kernel config they were
 given

set_kernel_radius wrote into the caller's dict, and so into every other
automaton configured from it.
---
 yuca/ca/common.py             | 2 +-
 yuca/ca/continuous.py         | 2 +-
 yuca/ca/neural.py             | 4 ++--
 yuca/ca/reaction_diffusion.py | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 02ef17b..e829c03 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -328,7 +328,7 @@ class CA(nn.Module):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
             self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
 
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 298912c..9847b4d 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -119,7 +119,7 @@ class CCA(CA):
 
         self.initialize_id_layer()
 
-        self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.neighborhood_kernel_config = copy.deepcopy(config["neighborhood_kernel_config"])
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         self.update_kernel_params(self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index e3b029d..e54c28e 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -123,7 +123,7 @@ class NCA(CA):
 
     def set_kernel_config(self, kernel_config):
 
-        self.neighborhood_kernel_config = kernel_config
+        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
@@ -149,7 +149,7 @@ class NCA(CA):
 
         self.initialize_id_layer()
 
-        self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.neighborhood_kernel_config = copy.deepcopy(config["neighborhood_kernel_config"])
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
diff --git a/yuca/ca/reaction_diffusion.py b/yuca/ca/reaction_diffusion.py
index 466d8e1..93da691 100644
--- a/yuca/ca/reaction_diffusion.py
+++ b/yuca/ca/reaction_diffusion.py
@@ -88,7 +88,7 @@ class RxnDfn(CA):
         self.initialize_id_layer()
 
         nbhd_kernel = get_kernel(config["neighborhood_kernel_config"])
-        self.neighborhood_kernel_config = config["neighborhood_kernel_config"]
+        self.neighborhood_kernel_config = copy.deepcopy(config["neighborhood_kernel_config"])
         self.kernel_radius = self.neighborhood_kernel_config["radius"]
 
         self.add_neighborhood_kernel(nbhd_kernel)
-- 
2.43.0


From f5cf039c04b9cd0a0d1f5cc464ad95ce5a9856e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 11/37] fix: set_kernel_config of the neural automaton takes
 effect

It replaced the stored kernel but not the layer that applies it; and kernel
parameters of the previous family stayed behind when the new one has none.
---
 yuca/ca/common.py |  3 +--
 yuca/ca/neural.py | 10 ----------
 2 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index e829c03..ca0eb63 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -329,8 +329,7 @@ class CA(nn.Module):
     def set_kernel_config(self, kernel_config):
 
         self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
+        self.update_kernel_params(self.neighborhood_kernel_config.get("kernel_kwargs", {}))
 
         self.set_kernel_radius(self.neighborhood_kernel_config["radius"])
 
diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index e54c28e..4d92d4b 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -121,16 +121,6 @@ class NCA(CA):
         self.set_dt(0.1)
 
 
-    def set_kernel_config(self, kernel_config):
-
-        self.neighborhood_kernel_config = copy.deepcopy(kernel_config)
-        self.kernel_radius = self.neighborhood_kernel_config["radius"]
-        nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
-        if "kernel_kwargs" in self.neighborhood_kernel_config.keys():
-            self.update_kernel_params(self.neighborhood_kernel_config["kernel_kwargs"])
-
-        self.add_neighborhood_kernel(nbhd_kernel)
-
     def load_config(self, config):
 
         if "instant_kwargs" in config.keys():
-- 
2.43.0


From 452fed0b5138e56d889e7cb26424ef7cc7e884c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 12/37] fix: set_kernel_radius of an automaton that was never
 configured

---
 yuca/ca/common.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index ca0eb63..0600cc6 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -267,6 +267,11 @@ class CA(nn.Module):
         and therefore changing the spatial resolution of the system. 
         """
 
+        if self.neighborhood_kernel_config is None:
+            # never configured, see default_init
+            self.neighborhood_kernel_config = {"name": "GaussianMixture", \
+                    "kernel_kwargs": {"parameters": self.kernel_params}}
+
         self.neighborhood_kernel_config["radius"] = radius
         nbhd_kernel = get_kernel(self.neighborhood_kernel_config)
         self.add_neighborhood_kernel(nbhd_kernel)
-- 
2.43.0


From 8176781997890c87df63c4e05413fce909730ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 13/37] fix: growth functions do not share tensors with their
 config

set_params wrote into the config's tensors, and so into every other
automaton configured from it.
---
 yuca/ca/continuous.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index 9847b4d..e0e2676 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -429,6 +429,9 @@ class CCA(CA):
 
 
     def add_genesis_fn(self,  config):
+
+        # tensors in config would become the parameters themselves
+        config = copy.deepcopy(config)
         
         if config["name"] == "Gaussian":
             self.genesis_fns.append(Gaussian(**config))
@@ -453,6 +456,8 @@ class CCA(CA):
         
     def add_persistence_fn(self, config):
 
+        config = copy.deepcopy(config)
+
         if config["name"] == "Gaussian":
             self.persistence_fns.append(Gaussian(**config))
         elif config["name"] == "DoGaussian":
-- 
2.43.0


From 0c54a82b2eff5ffda70b779cb1dce2f2755a6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 14/37] fix: elites are copied before members of the population
 are overwritten

---
 yuca/cmaes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 9e1fdcd..e4d017a 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -313,7 +313,8 @@ class CMAES():
 
         
         for kk in range(self.elite_keep * self.elitism // 2):
-            self.population[kk].set_params(elite_pop[kk].get_params())
+            # elite_pop may hold members that were just overwritten
+            self.population[kk].set_params(1.0 * elite_params[kk])
 
         for ll in range(self.elite_keep * self.elitism // 2, self.population_size):
             self.population[ll].set_params(self.sample_distribution())    
-- 
2.43.0


From 12f4bd1eb8287f2eb4414fe5b9faf8e66d145773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 15/37] fix: evolution with a single worker runs in the parent
 process

---
 yuca/cmaes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index e4d017a..40003ee 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -469,7 +469,7 @@ class CMAES():
                 
                 t1 = time.time()
 
-                if self.workers == 0:
+                if self.workers <= 1:
                     for jj in range(self.population_size):
                         result = self.get_fitness(jj, steps = 1, \
                                 replicates = self.replicates, \
-- 
2.43.0


From 359773856814a63400a35ef6e07bc37a2d603d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 16/37] fix: an evolution that ends early ranks the generation
 it evaluated

---
 yuca/cmaes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 40003ee..d00febf 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -518,7 +518,10 @@ class CMAES():
 
 
                 
-                if generation == self.generations - 1:
+                # fitness has converged: this generation is the last one
+                stop_early = np.std(fitness) < 0.02 and generation > 6
+
+                if generation == self.generations - 1 or stop_early:
                     self.rank_population(fitness, seed=my_seed)
                 else:
                     self.update_population(fitness)
@@ -562,8 +565,7 @@ class CMAES():
                 print(proportion_msg)
 
 
-                if fit_std_dev < 0.02 and generation > 6:
-                    self.rank_population(fitness, seed = my_seed)
+                if stop_early:
                     early_msg = f"fitness std. dev. fallen to {fit_std_dev} "\
                             f"ending evolution early."
                     print(early_msg)
-- 
2.43.0


From 7c6373ba5601dd9f07f150594ae1cfe53a19caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 17/37] fix: the librarian stores ca_config when it is not
 verbose

---
 yuca/zoo/librarian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 6c35eb3..8aaa73f 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -65,11 +65,11 @@ class Librarian():
         meta_path = os.path.join(self.directory, 
                 f"{pattern_name}{counter:03}.csv")
 
-        if config_name == "unspecified" and self.verbose:
-            if ca_config == "unspecified" and self.verbose:
+        if config_name == "unspecified":
+            config_name = ca_config
+
+            if config_name == "unspecified" and self.verbose:
                 print(f"warning, no config supplied for {pattern_name}")
-            else:
-                config_name = ca_config
 
         with open(meta_path, "w") as f:
             f.write(f"ca_config,{config_name}")
-- 
2.43.0


From 1e798e00315fbe3133947dbf9c92675b139f6d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 18/37] fix: the librarian loads metadata as it was stored

---
 yuca/zoo/librarian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index 8aaa73f..e4880cc 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -98,20 +98,20 @@ class Librarian():
         with open(meta_path) as f:
             metadata = f.readlines()
 
-            ca_config = metadata[0].split(",")[1]
+            ca_config = metadata[0].split(",", 1)[1].strip()
 
             try:
-                entry_point = metadata[3].split(",")[1]
+                entry_point = metadata[3].split(",", 1)[1].strip()
             except:
                 entry_point = "none"
 
             try:
-                notes = metadata[2].split(",")[1]
+                notes = metadata[2].split(",", 1)[1].strip()
             except:
                 notes = ""
 
             try:
-                commit_hash = metadata[1].split(",")[1]
+                commit_hash = metadata[1].split(",", 1)[1].strip()
             except:
                 commit_hash = "none"
 
-- 
2.43.0


From a452d32a880d6a71cbb5bd58a2c86ebb3b5dcf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 19/37] fix: the librarian's index holds every pattern whatever
 its name

---
 yuca/zoo/librarian.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/yuca/zoo/librarian.py b/yuca/zoo/librarian.py
index e4880cc..ea3d4e2 100644
--- a/yuca/zoo/librarian.py
+++ b/yuca/zoo/librarian.py
@@ -28,16 +28,8 @@ class Librarian():
 
         pattern_names = os.listdir(self.directory)
 
-        remove_list = []
-        for elem in pattern_names:
-            if ".py" in elem \
-                    or ".ipynb" in elem \
-                    or "csv" in elem \
-                    or "__pycache__" in elem:
-                remove_list.append(elem)
-                
-        for elem in remove_list:
-            pattern_names.remove(elem)
+        pattern_names = [elem for elem in pattern_names \
+                if os.path.splitext(elem)[1] == ".npy"]
 
         pattern_names = [os.path.splitext(elem)[0] for elem in pattern_names]
 
-- 
2.43.0


From 1e0cadc1da469d6af67fb2fcb19e823b152ff788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 20/37] fix: glider reward goes on while a pattern is only
 losing mass

---
 yuca/wrappers/glider_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/wrappers/glider_wrapper.py b/yuca/wrappers/glider_wrapper.py
index 44c1d3e..7612584 100644
--- a/yuca/wrappers/glider_wrapper.py
+++ b/yuca/wrappers/glider_wrapper.py
@@ -124,7 +124,7 @@ class GliderWrapper():
             dgrid = action - old_grid
             old_grid = 1.0  * action
 
-            if mean_grid == 0.0 or dgrid.max() <= 0.00001:
+            if mean_grid == 0.0 or dgrid.abs().max() <= 0.00001:
                 break
 
         # take stepwise average 
-- 
2.43.0


From 8a1320a3ad919d27dd5c0efd3d3d0078d3bb7ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 21/37] fix: cppn input has one copy of the coordinate features
 per channel

---
 yuca/cppn.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index bb6dc81..e7792c6 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -135,9 +135,8 @@ class CPPN(nn.Module):
 
 
 
-        for ii in range(self.external_channels-1):
-            grid = torch.cat([grid,  grid], dim=1)
-            rr = torch.cat([rr, rr], dim=1)
+        grid = torch.cat([grid] * self.external_channels, dim=1)
+        rr = torch.cat([rr] * self.external_channels, dim=1)
 
         self.rr = rr
         self.grid = grid.to(torch.get_default_dtype())
-- 
2.43.0


From bcc75b7e5ac7c4198a452ee2d62b69cbe475bd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 22/37] fix: cppn agents are made with the parameters they are
 given

---
 yuca/cppn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yuca/cppn.py b/yuca/cppn.py
index e7792c6..b0911c8 100644
--- a/yuca/cppn.py
+++ b/yuca/cppn.py
@@ -37,6 +37,12 @@ class CPPN(nn.Module):
 
         self.no_grad()
 
+        # agents sampled by the search, or restarted from its log, are given
+        # a parameter vector (CPPNPlus appends the rule's parameters to it)
+        params = query_kwargs("params", None, **kwargs)
+        if params is not None:
+            CPPN.set_params(self, params)
+
     def init_model(self):
 
         input_dim = self.external_channels * 16
-- 
2.43.0


From 61922f40b128b75c2068a012c888b9391fe30947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:31 +0000
Subject: [PATCH 23/37] fix: prep_input keeps all channels of the image by
 default

---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index a59c50e..34e92a4 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -66,7 +66,7 @@ def get_aperture(img, aperture_radius):
 def prep_input(img, external_channels=None, \
         batch_size=32, aperture_radius=1.0, bite_radius=0.1, noise_level=0.05):
 
-    external_channels = img.shape[0] if external_channels is None \
+    external_channels = img.shape[1] if external_channels is None \
             else external_channels
 
     batch = torch.zeros(batch_size, external_channels, img.shape[2], img.shape[3])
-- 
2.43.0


From 1990d05d8a33a7f35de567775e3919c98c848f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 24/37] fix: conditional entropy counts joint occurrences

---
 yuca/analyze.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yuca/analyze.py b/yuca/analyze.py
index c0053bd..1abfd0d 100644
--- a/yuca/analyze.py
+++ b/yuca/analyze.py
@@ -113,7 +113,7 @@ def get_conditional_grid_entropy(grid, direction=0):
     
     for ii in range(p.shape[0]):
         for jj in range(p.shape[1]):
-            p[ii,jj] = np.sum((uint8_grid == ii) == (uint8_grid_shifted == jj))
+            p[ii,jj] = np.sum((uint8_grid == ii) & (uint8_grid_shifted == jj))
     
     # normalize p
     p_su = p / p.sum()
@@ -124,7 +124,8 @@ def get_conditional_grid_entropy(grid, direction=0):
     for kk in range(p_s_given_u.shape[0]):
         for ll in range(p_s_given_u.shape[1]):
             
-            p_s_given_u[kk, ll] = p[kk,ll] / np.sum(p[:,ll])
+            # values that no neighbor takes have empty columns
+            p_s_given_u[kk, ll] = p[kk,ll] / max([np.sum(p[:,ll]), 1])
             
     
     h = - np.sum( p_su * np.log2( eps+p_s_given_u))
-- 
2.43.0


From 935eb9c19516c19b208bbf155dfa9314026467ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:58 +0000
Subject: [PATCH 25/37] fix: make_gif creates the folder it saves to

Saving an animation in a folder whose parents did not exist raised
FileNotFoundError after the whole run had been computed.
---
 yuca/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/utils.py b/yuca/utils.py
index 34e92a4..63bc66b 100644
--- a/yuca/utils.py
+++ b/yuca/utils.py
@@ -170,7 +170,7 @@ def make_gif(frames_path="./assets/gif_frames/", gif_path="./assets", \
     if os.path.exists(gif_path):
         pass
     else:
-        os.mkdir(gif_path)
+        os.makedirs(gif_path)
 
     gif_path = os.path.join(gif_path, f"gif_{tag}_{gif_id:04d}.gif") 
 
-- 
2.43.0


From ac303877fc30113ded41b8684f6f30da61793dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 26/37] fix: step predictors apply all of their layers

conv_layers holds two layers per repeat, but forward stopped after
layer_repeats of them, leaving half of a deeper predictor unused.
---
 yuca/step_predictor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index f108594..85a7609 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -68,7 +68,7 @@ class StepPredictor(nn.Module):
                     
     def forward(self, x):
 
-        for jj in range(0, self.layer_repeats, 2):
+        for jj in range(0, 2 * self.layer_repeats, 2):
             
             x0 = torch.relu(self.conv_layers[jj](x))
             x1 = F.dropout(x0, p = self.dropout, training=self.training)
-- 
2.43.0


From 812595e25140aef321adf0ec35ded98b276fa475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 27/37] fix: step predictors train and evaluate themselves

fit and evaluate used a global named model, which exists only when the
file is run as a script.
---
 yuca/step_predictor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 85a7609..53bb800 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -102,7 +102,7 @@ class StepPredictor(nn.Module):
 
                 optimizer.zero_grad()
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 loss = torch.mean((batch_y.to(self.my_device) - pred)**2)
 
@@ -126,7 +126,7 @@ class StepPredictor(nn.Module):
                 with torch.no_grad():
                     for batch_x, batch_y in val_dataloader:
 
-                        pred = model(batch_x.to(self.my_device))
+                        pred = self(batch_x.to(self.my_device))
 
                         #mse loss
                         val_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
@@ -174,7 +174,7 @@ class StepPredictor(nn.Module):
 
             for batch_x, batch_y in test_dataloader:
 
-                pred = model(batch_x.to(self.my_device))
+                pred = self(batch_x.to(self.my_device))
 
                 #mse loss
                 test_loss += torch.sum((batch_y.to(self.my_device) - pred)**2)
-- 
2.43.0


From e1a54a518ae32698f6d02c19e71e9aff329c1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:12 +0000
Subject: [PATCH 28/37] fix: identity kernels with parameters can be used

A kernel made of parameters (e.g. Gaussian) required gradients, so
copying it to the identity layer made the layer's weight a non-leaf and
loading such a configuration raised RuntimeError.
---
 yuca/ca/common.py     | 2 +-
 yuca/ca/continuous.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/yuca/ca/common.py b/yuca/ca/common.py
index 0600cc6..0e862f2 100644
--- a/yuca/ca/common.py
+++ b/yuca/ca/common.py
@@ -85,7 +85,7 @@ class CA(nn.Module):
     def add_identity_kernel(self, **kwargs):
         
         if "kernel" in kwargs.keys():
-            self.id_kernel = kwargs["kernel"]
+            self.id_kernel = kwargs["kernel"].clone().detach()
 
             if len(self.id_kernel.shape) == 2:
                 self.id_kernel = torch.reshape(self.id_kernel, \
diff --git a/yuca/ca/continuous.py b/yuca/ca/continuous.py
index e0e2676..2894ece 100644
--- a/yuca/ca/continuous.py
+++ b/yuca/ca/continuous.py
@@ -360,7 +360,7 @@ class CCA(CA):
     def add_identity_kernel(self, **kwargs):
         
         if "kernel" in kwargs.keys():
-            self.id_kernel = kwargs["kernel"]
+            self.id_kernel = kwargs["kernel"].clone().detach()
 
             if len(self.id_kernel.shape) == 2:
                 self.id_kernel = torch.reshape(self.id_kernel, \
-- 
2.43.0


From f1dc82c5deb8c1af4e360f7fa47068d3c25d62f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 29/37] fix: clones are trained on the neighborhoods of the CA
 they clone

---
 yuca/clone.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yuca/clone.py b/yuca/clone.py
index 9d9d078..06f6547 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -62,6 +62,7 @@ def clone_from_ca(**kwargs):
                     external_channels=external_channels,\
                     hidden_channels=hidden_channels)
             nca.add_neighborhood_kernel(ca.neighborhood_kernels)
+            nca.initialize_neighborhood_layer()
             nca.yes_grad()
 
             optimizer = torch.optim.Adam(nca.weights_layer.parameters(), lr=learning_rate)
-- 
2.43.0


From 4c28f280688bb9bc4e3879fd115b81156bf22bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:10 +0000
Subject: [PATCH 30/37] fix: each of several cloned configs is saved under its
 own name

---
 yuca/clone.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index 06f6547..bf77075 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -32,8 +32,6 @@ def clone_from_ca(**kwargs):
     learning_rate = query_kwargs("learning_rate", 1e-3, **kwargs)
     verbose = query_kwargs("verbose", False, **kwargs)
     save_name = query_kwargs("save_name", "default_nca.pt", **kwargs)
-    save_path = os.path.join(log_directory, save_name)
-
 
     best_state_dict = None
     
@@ -150,6 +148,9 @@ def clone_from_ca(**kwargs):
         else:
             msg += f"\tdid not meet error threshold {error_threshold:.3e} with loss {best_error:.3e}\n"
 
+        # each config is saved under its own name
+        save_path = os.path.join(log_directory, save_name)
+
         if "ca_config" in save_path:
             config_name = os.path.splitext(ca_config)[0] 
             save_path = save_path.replace("ca_config", config_name)
-- 
2.43.0


From 992c077e86247c0808f6eb5e7e4c1b5f0f41f7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 31/37] fix: the saved clone has the parameters its best error
 was measured with

---
 yuca/clone.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/yuca/clone.py b/yuca/clone.py
index bf77075..3b248b9 100644
--- a/yuca/clone.py
+++ b/yuca/clone.py
@@ -1,4 +1,5 @@
 import argparse
+import copy
 import os
 import time
 
@@ -96,6 +97,13 @@ def clone_from_ca(**kwargs):
                     loss = ((target-predicted).abs() / (1e-9 + target.abs())).mean()
                     #(F.mse_loss(predicted, target) + F.mae_loss(predicted, target))
 
+                    # the parameters that have this error, before they are updated
+                    relative_error = (torch.abs(predicted - target)/(target.abs()+1e-9)).mean().detach()
+
+                    if relative_error < best_error:
+                        best_error = relative_error
+                        best_state_dict = copy.deepcopy(nca.state_dict())
+
                     loss.backward()
                     clipping_value = 1e-1 
                     torch.nn.utils.clip_grad_norm(nca.weights_layer.parameters(), clipping_value)
@@ -106,15 +114,9 @@ def clone_from_ca(**kwargs):
                     else:
                         smooth_loss = loss.detach() #smooth_loss * loss_alpha + (1-loss_alpha) * loss.detach()
 
-                    relative_error = (torch.abs(predicted - target)/(target.abs()+1e-9)).mean()
-
                     if relative_error < iteration_best_error:
                         iteration_best_error = relative_error
 
-                        if relative_error < best_error:
-                            best_error = relative_error
-                            best_state_dict = nca.state_dict()
-
                         if verbose:
                             msg = f"iteration {iteration} new best relative error at step {step} "\
                                     f"= {iteration_best_error:.3e}, best overall = {best_error:.3e}\n"
-- 
2.43.0


From 7e2bf80e314af5ab877c7b84d373015a0cf9fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 32/37] fix: fit saves the model among the models, not below
 the log file

---
 yuca/step_predictor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yuca/step_predictor.py b/yuca/step_predictor.py
index 53bb800..4c25486 100644
--- a/yuca/step_predictor.py
+++ b/yuca/step_predictor.py
@@ -154,11 +154,11 @@ class StepPredictor(nn.Module):
                         "epochs": epochs,\
                         "val_loss": val_losses}
 
-                save_path = os.path.split(os.path.split(\
+                root_path = os.path.split(os.path.split(\
                         os.path.realpath(__file__))[0])[0]
 
-                save_path = os.path.join(save_path, "logs", f"{self.exp_tag}.npy")
-                model_save_path = os.path.join(save_path, "models", f"{self.exp_tag}_model.pt")
+                save_path = os.path.join(root_path, "logs", f"{self.exp_tag}.npy")
+                model_save_path = os.path.join(root_path, "models", f"{self.exp_tag}_model.pt")
 
                 np.save(save_path, progress)
                 torch.save(self.state_dict(), model_save_path)
-- 
2.43.0


From fc1cfb55e87bbfe6a4365e1c158f4893fed32673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 33/37] fix: resetting a CODE automaton restores its initial
 step size

---
 yuca/code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yuca/code.py b/yuca/code.py
index f731fec..fa92cf1 100644
--- a/yuca/code.py
+++ b/yuca/code.py
@@ -56,6 +56,8 @@ class CODE(CCA):
     def reset(self):
 
         self.t_count = 0.0
+        # a run starts from the initial step size, not from the last run's
+        self.prev_dt = query_kwargs("prev_dt", 0.3, **self.instant_kwargs)
 
     def adaptive_euler(self, grid, total_step=0.0):
         
-- 
2.43.0


From 0405b7ff48a9f5dc89a996b0c0f3e18827417dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 34/37] fix: halting evaluations start from a reset automaton

---
 yuca/wrappers/halting_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/wrappers/halting_wrapper.py b/yuca/wrappers/halting_wrapper.py
index 32cd337..26f5306 100644
--- a/yuca/wrappers/halting_wrapper.py
+++ b/yuca/wrappers/halting_wrapper.py
@@ -60,7 +60,7 @@ class SimpleHaltingWrapper(nn.Module):
     def step(self, action):
     
         self.ca.set_params(action)
-
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim).to(self.ca.my_device)
@@ -278,6 +278,7 @@ class HaltingWrapper(nn.Module):
             self.optimizer.step()
 
         self.eval()
+        self.ca.reset()
 
         grid = torch.rand(self.batch_size, self.ca.external_channels, \
                 self.dim, self.dim, device=self.my_device)
-- 
2.43.0


From bd9da59a2b13e3ba849beed2a0cd306cb352902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 35/37] fix: co-evolution saves the fittest's rule, not its
 pattern's weights

---
 yuca/cmaes.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index d00febf..80a3e54 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -180,6 +180,10 @@ class CMAES():
         # reduce the impact of lucky/unlucky predictor initializations
         return np.mean(fitness_replicates), proportion_alive
 
+    def set_rule(self, agent):
+
+        self.env.ca.set_params(agent.get_params())
+
     def rank_population(self, fitness, seed=0):
         """
         for the final generation, fitness scores are ranked deterministically
@@ -227,7 +231,7 @@ class CMAES():
         ca_config_filepath = os.path.join(temp, f"ca_configs/{self.exp_id}_seed{seed}.npy")
         
         if "pattern" not in self.tag:
-            self.env.ca.set_params(self.elite_params[0])
+            self.set_rule(elite_pop[0])
 
         self.env.ca.save_config(ca_config_filepath)
 
@@ -659,6 +663,13 @@ class CMACES(CMAES):
         # reduce the impact of lucky/unlucky predictor initializations
         return np.mean(fitness_replicates), proportion_alive
 
+    def set_rule(self, agent):
+
+        # an agent's parameters are those of its pattern and of its rule
+        rule_action, pattern_action = agent.get_action()
+
+        self.env.ca.set_params(rule_action)
+
     def get_elite_configs(self):
 
         elite_configs = []
-- 
2.43.0


From e5bb4e93611d2ae2b41718f85157de73ea240931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 36/37] fix: the final animations show the elites

---
 yuca/cmaes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yuca/cmaes.py b/yuca/cmaes.py
index 80a3e54..d521698 100644
--- a/yuca/cmaes.py
+++ b/yuca/cmaes.py
@@ -577,7 +577,8 @@ class CMAES():
 
             if "pattern" not in self.exp_id:
                 for elite_idx in range(self.elite_keep):
-                    self.env.ca.set_params(self.population[elite_idx].get_params())
+                    self.population[elite_idx].set_params(self.elite_params[elite_idx])
+                    self.set_rule(self.population[elite_idx])
                     tag = f"{self.exp_id}_seed{my_seed}_"\
                             f"immode{self.prediction_mode}" 
                     tag = [tag, f"gen{generation}"]
-- 
2.43.0


From c48db7e4509d456ea8376a8f0bb34684d280158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 37/37] fix: neural automata keep the parameters loaded from a
 log

---
 yuca/ca/neural.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yuca/ca/neural.py b/yuca/ca/neural.py
index 4d92d4b..bbcfe37 100644
--- a/yuca/ca/neural.py
+++ b/yuca/ca/neural.py
@@ -79,6 +79,12 @@ class NCA(CA):
         else:
             self.default_init()
 
+        if self.input_filepath is not None:
+            # initializing has replaced the parameters loaded by the parent class
+            my_data = np.load(self.input_filepath, allow_pickle=True).reshape(1)[0]
+
+            self.set_params(my_data["elite_params"][-1][0])
+
         self.reset()
 
     def update_kernel_params(self, kernel_kwargs):
-- 
2.43.0

