From d86eb525d26cc25a946d2cac7693eaae1832013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:28 +0000
Subject: [PATCH 01/21] fix: recognise built-in activations when another keras
 distribution is loaded

With qkeras installed, tf_keras gets loaded and keras resolves 'relu' to tf_keras' function.
The identity tests against keras.activations then fail silently: relu fused in HDense/HConv* is
dropped from the proxy model, softmax is turned into an unary LUT, and so on.
---
 src/HGQ/bops/bops.py                  |  8 ++++----
 src/HGQ/layers/base.py                |  4 ++--
 src/HGQ/proxy/convert.py              |  4 ++--
 src/HGQ/proxy/plugins/qkeras.py       |  4 ++--
 src/HGQ/proxy/precision_derivation.py | 10 +++++-----
 src/HGQ/proxy/unary_lut.py            |  6 +++---
 src/HGQ/utils/__init__.py             |  2 +-
 src/HGQ/utils/utils.py                |  8 ++++++++
 8 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index a681cb3..1b55a96 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -3,7 +3,7 @@ import tensorflow as tf
 from tensorflow import keras
 
 from ..layers import HLayerBase
-from ..utils import warn
+from ..utils import is_keras_activation, warn
 
 
 class FreeBOPs(tf.keras.callbacks.Callback):
@@ -94,17 +94,17 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         if not isinstance(layer, HLayerBase):
             continue
         aq = layer.paq
-        if layer.activation is tf.keras.activations.softmax:
+        if is_keras_activation(layer.activation, 'softmax'):
             # softmax_lut behaves slightly differently from softmax, which is more likely to generate exact 1s. Overflows may occur with traced min-max.
             aq._min.assign(tf.zeros_like(aq._min))  # type: ignore
             aq._max.assign(tf.ones_like(aq._max))  # type: ignore
 
-        if layer.activation is tf.keras.activations.sigmoid:
+        if is_keras_activation(layer.activation, 'sigmoid'):
             # <0 or >1 for sigmoid does not make sense. Undo the effect of cover_factor.
             aq._min.assign(tf.maximum(aq._min, tf.zeros_like(aq._min)))  # type: ignore
             aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
 
-        if layer.activation is tf.keras.activations.tanh:
+        if is_keras_activation(layer.activation, 'tanh'):
             # <-1 or >1 for tanh does not make sense. Undo the effect of cover_factor.
             aq._min.assign(tf.maximum(aq._min, -tf.ones_like(aq._min)))  # type: ignore
             aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index c86464a..2e3bb51 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -5,7 +5,7 @@ import tensorflow as tf
 from keras.activations import linear, relu
 
 from ..quantizer import HGQ
-from ..utils import apf_to_tuple, get_default_kq_conf, get_default_paq_conf, tuple_to_apf, warn
+from ..utils import apf_to_tuple, get_default_kq_conf, get_default_paq_conf, is_keras_activation, tuple_to_apf, warn
 
 
 @staticmethod  # type: ignore
@@ -88,7 +88,7 @@ class HLayerBase(ABSBaseLayer):
 
     @property
     def _relu_act(self):
-        return hasattr(self, 'activation') and self.activation is tf.keras.activations.relu
+        return hasattr(self, 'activation') and is_keras_activation(self.activation, 'relu')
 
     def post_build(self, input_shape):
         """This method should be called after calling build() method of the child class. It initializes the quantizers and sets the bops variable, and set a few flags (_has_kernel, _has_bias, _relu_act) for convenience.)"""
diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index 93a5397..2f9d508 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -11,7 +11,7 @@ from tensorflow import keras
 
 from ..layers import HLayerBase, HQuantize, PDropout, PLayerBase, Signature
 from ..layers.base import ABSBaseLayer
-from ..utils import warn
+from ..utils import is_keras_activation, warn
 from .fixed_point_quantizer import FixedPointQuantizer
 from .precision_derivation import register_qconf
 from .unary_lut import xfr_to_unary_lut
@@ -343,7 +343,7 @@ class ProxyLayerXFormer:
     @__call__.register
     def _(self, layer: keras.layers.Activation):
         # Purge linear activation on sight
-        if layer.activation is keras.activations.linear:
+        if is_keras_activation(layer.activation, 'linear'):
             return None
         return layer
 
diff --git a/src/HGQ/proxy/plugins/qkeras.py b/src/HGQ/proxy/plugins/qkeras.py
index 42022e9..54b460b 100644
--- a/src/HGQ/proxy/plugins/qkeras.py
+++ b/src/HGQ/proxy/plugins/qkeras.py
@@ -10,7 +10,7 @@ from qkeras.utils import _add_supported_quantized_objects
 from tensorflow import keras
 
 from HGQ.proxy.fixed_point_quantizer import FixedPointQuantizer
-from HGQ.utils import warn
+from HGQ.utils import is_keras_activation, warn
 
 from ..convert import ProxyLayerXFormer
 from ..precision_derivation import get_produced_kif
@@ -41,7 +41,7 @@ def qkeras_quantizer_to_layers(quantizer, SAT) -> tuple[keras.layers.Layer, ...]
         e.g.: quantized_bits -> (fixed,)
               quantized_relu -> (relu, fixed)
     """
-    if quantizer is keras.activations.linear:
+    if is_keras_activation(quantizer, 'linear'):
         return ()
     return keras.layers.Activation(quantizer),
 
diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 151f21a..423973b 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -10,7 +10,7 @@ from keras.src.layers.pooling.base_pooling2d import Pooling2D
 from keras.src.layers.pooling.base_pooling3d import Pooling3D
 from tensorflow import keras
 
-from ..utils import apf_to_tuple, tuple_to_apf, warn
+from ..utils import apf_to_tuple, is_keras_activation, tuple_to_apf, warn
 from .fixed_point_quantizer import FixedPointQuantizer
 
 STREAM = False
@@ -110,7 +110,7 @@ def _(layer: keras.layers.Activation | keras.layers.ReLU | keras.layers.LeakyReL
     kifs = get_input_kifs(layer)
     assert len(kifs) == 1, f'Activation layer {layer.name} has more than one input. This is not supported.'
     if isinstance(layer, keras.layers.Activation):
-        if layer.activation is tf.keras.activations.softmax:
+        if is_keras_activation(layer.activation, 'softmax'):
             return 0, 1, 65535
     if isinstance(layer, keras.layers.Softmax):
         return 0, 1, 65535
@@ -333,16 +333,16 @@ def get_config_table_tablesize_result(layer: keras.layers.Activation):
     k, i, f, RND, SAT = get_result_kifRS(layer)
     result_t = tuple_to_apf((k, i, f), RND, SAT)
     table_t = result_t
-    if layer.activation in (keras.activations.tanh, keras.activations.sigmoid):
+    if is_keras_activation(layer.activation, 'tanh', 'sigmoid'):
         result_t = tuple_to_apf((k, i, f), 'TRN', 'WRAP')  # These activations are purely LUT based, this rounding/saturating in the table only would be enough.
     i_kifs = get_input_kifs(layer)
     if len(i_kifs) > 1:
         warn(f'Activation layer {layer.name} has more than one input. Did you just make a activation with multiple inputs? table_size set in this way may make no sense. Proceed only if you know what you are doing.')
     i_k, i_i, i_f = np.max(i_kifs, axis=0)  # type: ignore
     table_size = int(2**(i_k + i_i + i_f))  # ...the ideal case. Will be the case if we have universal LUT-based activation.
-    if layer.activation is keras.activations.tanh:
+    if is_keras_activation(layer.activation, 'tanh'):
         table_size = int(8 / 2.**-i_f)  # LUT Range hardcoded to -4 ~ 4, match #fractional bits
-    elif layer.activation is tf.keras.activations.sigmoid:
+    elif is_keras_activation(layer.activation, 'sigmoid'):
         table_size = int(16 / 2.**-i_f)  # LUT Range hardcoded to -8 ~ 8, match #fractional bits
     return table_t, table_size, result_t
 
diff --git a/src/HGQ/proxy/unary_lut.py b/src/HGQ/proxy/unary_lut.py
index 93a7f72..7a9d69c 100644
--- a/src/HGQ/proxy/unary_lut.py
+++ b/src/HGQ/proxy/unary_lut.py
@@ -8,7 +8,7 @@ from keras.layers import Layer
 
 from HGQ.proxy.fixed_point_quantizer import gfixed_quantizer
 from HGQ.proxy.precision_derivation import get_input_kifs, get_produced_kif, get_result_kifRS
-from HGQ.utils import apf_to_tuple, tuple_to_apf
+from HGQ.utils import apf_to_tuple, is_keras_activation, tuple_to_apf
 
 LUT_SIZE_LIMITATION = int(os.environ.get('LUT_SIZE_LIMITATION', 2**12))
 
@@ -86,9 +86,9 @@ class UnaryLUT(Layer):
 def xfr_to_unary_lut(layer: keras.layers.Layer, max_table_size=1024):
     if not isinstance(layer, keras.layers.Activation):
         return layer
-    if layer.activation is keras.activations.softmax:
+    if is_keras_activation(layer.activation, 'softmax'):
         return layer  # simply doesn't work
-    if layer.activation in (keras.activations.relu, keras.activations.linear):
+    if is_keras_activation(layer.activation, 'relu', 'linear'):
         return layer  # not necessary
     kifs_in = get_input_kifs(layer)
     if len(kifs_in) > 1:
diff --git a/src/HGQ/utils/__init__.py b/src/HGQ/utils/__init__.py
index 94b2537..6e0c136 100644
--- a/src/HGQ/utils/__init__.py
+++ b/src/HGQ/utils/__init__.py
@@ -1 +1 @@
-from .utils import MonoL1, apf_to_tuple, get_default_kq_conf, get_default_paq_conf, set_default_kq_conf, set_default_paq_conf, strategy_dict, tuple_to_apf, warn
+from .utils import MonoL1, apf_to_tuple, get_default_kq_conf, get_default_paq_conf, is_keras_activation, set_default_kq_conf, set_default_paq_conf, strategy_dict, tuple_to_apf, warn
diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 7902546..152343d 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -101,6 +101,14 @@ def tuple_to_apf(t: tuple, rnd='TRN', warp='WARP', keep_zeros=True):
     return f'{"u" if kn==0 else ""}fixed<{max(i+f+kn,1)},{i+kn}>'
 
 
+def is_keras_activation(func, *names: str):
+    """Check if func is one of the named built-in keras activations. Other than comparing references, this also works when multiple keras distributions are loaded (e.g. tf_keras, through qkeras), where the function resolved by keras from a string may come from any of them."""
+    if any(func is getattr(tf.keras.activations, name) for name in names):
+        return True
+    module = getattr(func, '__module__', None) or ''
+    return module.endswith('keras.src.activations') and func.__name__ in names
+
+
 def warn(msg: str, stacklevel=2):
     # print in yellow
     _warn(f'\033[93m{msg}\033[0m', stacklevel=stacklevel)
-- 
2.43.0


From 828860dceef395b4ad2ecc669f7ac8beab38c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:14 +0000
Subject: [PATCH 02/21] fix: allow unary LUTs of exactly the maximum table size

The limits are documented as inclusive (and the message says 4096 > 4096), but a table of
exactly that size aborted the conversion.
---
 src/HGQ/proxy/unary_lut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/proxy/unary_lut.py b/src/HGQ/proxy/unary_lut.py
index 7a9d69c..a27a177 100644
--- a/src/HGQ/proxy/unary_lut.py
+++ b/src/HGQ/proxy/unary_lut.py
@@ -21,7 +21,7 @@ class UnaryLUT(Layer):
         assert sum(kif_in) > 0, 'Input to activation is constantly zero'
         assert sum(kif_out) > 0, 'Output of activation is constantly zero'
         if LUT_SIZE_LIMITATION > 0:
-            assert 2**sum(kif_in) < LUT_SIZE_LIMITATION, f'Input to activation is too large ({2**sum(kif_in)} > {LUT_SIZE_LIMITATION}). If you want to raise this limit, set the LUT_SIZE_LIMITATION environment variable.'
+            assert 2**sum(kif_in) <= LUT_SIZE_LIMITATION, f'Input to activation is too large ({2**sum(kif_in)} > {LUT_SIZE_LIMITATION}). If you want to raise this limit, set the LUT_SIZE_LIMITATION environment variable.'
         self.kif_in = kif_in
         self.kif_out = kif_out
         k, i, f = kif_in
@@ -64,7 +64,7 @@ class UnaryLUT(Layer):
         kif_in = k, i, f
         assert k + i + f > 0, 'Activation function is applied to an zero array. Something is wrong.'
         N = 2**(k + i + f)
-        assert N < int(os.environ.get('HLS_MAX_ACTIVATION_LUT_SIZE', 2**16)), f'Input to activation function is too large ({N} > {os.environ.get("HLS_MAX_ACTIVATION_LUT_SIZE", 2**16)}). If you want to raise this limit, set the HLS_MAX_ACTIVATION_LUT_SIZE environment variable.'
+        assert N <= int(os.environ.get('HLS_MAX_ACTIVATION_LUT_SIZE', 2**16)), f'Input to activation function is too large ({N} > {os.environ.get("HLS_MAX_ACTIVATION_LUT_SIZE", 2**16)}). If you want to raise this limit, set the HLS_MAX_ACTIVATION_LUT_SIZE environment variable.'
         if k:
             inp_table = np.empty(N, dtype=np.float64)
             inp_table[:N // 2] = np.linspace(0, 2.**i - 2.**-f, N // 2, dtype=np.float64)
-- 
2.43.0


From 64d043d23d457081ad2e92d9d7a3e4499bb85693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 03/21] fix: keep batchnorm parameters when saving H*BatchNorm
 layers

momentum, epsilon, center, scale and the batchnorm initializers/regularizers/constraints were not
in the layer config: a reloaded model silently fell back to the defaults, or failed to load.
---
 src/HGQ/layers/batchnorm_base.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 6458383..b8a54e3 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -109,6 +109,24 @@ class HBatchNormBase(HLayerBase):
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
+    def get_config(self):
+        config = super().get_config()
+        config.update({
+            'momentum': float(self.momentum),
+            'epsilon': float(self.epsilon),
+            'center': self.center,
+            'scale': self.scale,
+            'beta_initializer': tf.keras.initializers.serialize(self.beta_initializer),
+            'gamma_initializer': tf.keras.initializers.serialize(self.gamma_initializer),
+            'moving_mean_initializer': tf.keras.initializers.serialize(self.moving_mean_initializer),
+            'moving_variance_initializer': tf.keras.initializers.serialize(self.moving_variance_initializer),
+            'beta_regularizer': tf.keras.regularizers.serialize(self.beta_regularizer),
+            'gamma_regularizer': tf.keras.regularizers.serialize(self.gamma_regularizer),
+            'beta_constraint': tf.keras.constraints.serialize(self.beta_constraint),
+            'gamma_constraint': tf.keras.constraints.serialize(self.gamma_constraint),
+        })
+        return config
+
     def adapt_fused_bn_kernel_bw_bits(self, x: tf.Tensor):
         """Adapt the bitwidth of the kernel quantizer to the input tensor, such that each input is represented with approximately the same number of bits after fused batchnormalization."""
         if not self.scale:
-- 
2.43.0


From 0f8c969e26a822cf2ec158e62e04dc62999d3886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 04/21] fix: apply the same bias in training and inference in
 H*BatchNorm layers

During training, bn_beta was never added (and thus never trained), and the bias was dropped with
center=False; both are part of the fused bias at inference. With scale=False, the fused bias at
inference was scaled by rsqrt(1 + epsilon), though no scaling is applied during training.
---
 src/HGQ/layers/batchnorm_base.py | 2 ++
 src/HGQ/layers/conv.py           | 5 ++++-
 src/HGQ/layers/dense.py          | 5 ++++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index b8a54e3..de027da 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -106,6 +106,8 @@ class HBatchNormBase(HLayerBase):
     def fused_bias(self):  # type: ignore
         if not self.center:
             return self.bias
+        if not self.scale:
+            return self.bias - self.moving_mean + self.bn_beta
         scale = self.bn_gamma * tf.math.rsqrt(self.moving_variance + self.epsilon)
         return self.bias - self.moving_mean * scale + self.bn_beta
 
diff --git a/src/HGQ/layers/conv.py b/src/HGQ/layers/conv.py
index a2776bc..54d61d9 100644
--- a/src/HGQ/layers/conv.py
+++ b/src/HGQ/layers/conv.py
@@ -383,9 +383,12 @@ class HConvBatchNorm(HConv, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
+        elif self.use_bias:
+            bq = self.paq.bias_forward(self.bias, training, self.channel_loc)  # type: ignore
+            z = tf.nn.bias_add(z, bq, data_format=self._tf_data_format)  # type: ignore
 
         z = self.paq(z, training, record_minmax)  # type: ignore
         a = self.activation(z)  # type: ignore
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index 5fb2147..db476df 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -201,9 +201,12 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
             scale = tf.constant(1.0, dtype=self.dtype)
 
         if self.center:
-            train_fused_bias = self.bias - mean * scale  # type: ignore
+            train_fused_bias = self.bias - mean * scale + self.bn_beta  # type: ignore
             bq = self.paq.bias_forward(train_fused_bias, training, self.channel_loc)  # type: ignore
             z = tf.nn.bias_add(z, bq)  # type: ignore
+        elif self.use_bias:
+            bq = self.paq.bias_forward(self.bias, training, self.channel_loc)  # type: ignore
+            z = tf.nn.bias_add(z, bq)  # type: ignore
 
         z = self.paq(z, training, record_minmax)  # type: ignore
         a = self.activation(z)  # type: ignore
-- 
2.43.0


From fbd39447493013c5ea661d448892ae82710ceb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 05/21] fix: do not share quantizer config dicts between
 layers, defaults and the user

HActivation rewrites rnd_strategy 'auto' in its config in place: with a config dict passed to
several layers, or kept as the default, all other holders of the dict lost 'auto' as well.
---
 src/HGQ/layers/base.py | 4 ++--
 src/HGQ/utils/utils.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 2e3bb51..493997e 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -44,9 +44,9 @@ class HLayerBase(ABSBaseLayer):
     def __init__(self, kq_conf=None, paq_conf=None, beta=0., **kwargs):
         self._has_kernel = None
         self._has_bias = None
-        self.kq_config = kq_conf or get_default_kq_conf()
+        self.kq_config = (kq_conf or get_default_kq_conf()).copy()
         "kernel quantizer config"
-        self.paq_config = paq_conf or get_default_paq_conf()
+        self.paq_config = (paq_conf or get_default_paq_conf()).copy()
         "pre-activation quantizer config"
         self.beta = tf.Variable(beta, dtype=tf.float32, name='beta', trainable=False)
         "BOPs-regularization strength"
diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 152343d..64bd043 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -56,7 +56,7 @@ def set_default_kq_conf(config):
     assert isinstance(config, dict), f'config must be a dict, got {config.__class__.__name__}'
     assert set(config.keys()) == set(DEFAULT_KERNEL_QUANTIZER_CONFIG.keys()), \
         f'config must have keys {DEFAULT_KERNEL_QUANTIZER_CONFIG.keys()}, got {config.keys()}'
-    DEFAULT_KERNEL_QUANTIZER_CONFIG = config
+    DEFAULT_KERNEL_QUANTIZER_CONFIG = config.copy()
 
 
 def set_default_paq_conf(config):
@@ -64,7 +64,7 @@ def set_default_paq_conf(config):
     assert isinstance(config, dict), f'config must be a dict, got {config.__class__.__name__}'
     assert set(config.keys()) == set(DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG.keys()), \
         f'config must have keys {DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG.keys()}, got {config.keys()}'
-    DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG = config
+    DEFAULT_PRE_ACTIVATION_QUANTIZER_CONFIG = config.copy()
 
 
 strategy_dict = {
-- 
2.43.0


From 67e3e27497dcc6d05ac7799acd45c9a76e54e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 06/21] fix: keep reduced dims when collapsing skip_dims in HGQ

Without keepdims, a skip_dims with a skipped dimension after a kept one (e.g. 'except_1st') is
broadcast against the bitwidths along the wrong axis: recording min/max raises, and the kernel
bitwidths used for BOPs are silently wrong for square kernels.
---
 src/HGQ/quantizer/quantizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index f6050e4..94f3d55 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -168,8 +168,8 @@ class HGQ:
             return x + delta
         xq = x + delta
         if self.skip_dims:
-            min_xq = tf.reduce_min(xq, axis=self.skip_dims)
-            max_xq = tf.reduce_max(xq, axis=self.skip_dims)
+            min_xq = tf.reduce_min(xq, axis=self.skip_dims, keepdims=True)
+            max_xq = tf.reduce_max(xq, axis=self.skip_dims, keepdims=True)
         else:
             min_xq = max_xq = xq
 
@@ -227,8 +227,8 @@ class HGQ:
             _ref = tf.abs(_ref)
             int_bits = tf.floor(tf.math.log(_ref) / log2) + 1
             if self.skip_dims:
-                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims)
-                kn = tf.reduce_max(kn, axis=self.skip_dims)
+                int_bits = tf.reduce_max(int_bits, axis=self.skip_dims, keepdims=True)
+                kn = tf.reduce_max(kn, axis=self.skip_dims, keepdims=True)
         else:
             assert self.minmax_record
             if pos_only:
-- 
2.43.0


From c0751593c9d8bffcee8c8c02ac2ad69ac19ca0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:08 +0000
Subject: [PATCH 07/21] fix: permute the bitwidths in PPermute

The bitwidths were reshaped to the output shape instead of being permuted along with the values.
---
 src/HGQ/layers/passive_layers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/HGQ/layers/passive_layers.py b/src/HGQ/layers/passive_layers.py
index 28ef324..2ea2b02 100644
--- a/src/HGQ/layers/passive_layers.py
+++ b/src/HGQ/layers/passive_layers.py
@@ -179,4 +179,11 @@ class PDropout(PLayerBase, tf.keras.layers.Dropout):
 
 @register_keras_serializable(package="HGQ")
 class PPermute(PLayerBase, tf.keras.layers.Permute):
-    pass
+
+    @property
+    def act_bw(self):
+        return tf.transpose(self.input_bw, perm=(0,) + tuple(self.dims))
+
+    @property
+    def act_bw_exact(self) -> np.ndarray:
+        return self.input_bw_exact.transpose((0,) + tuple(self.dims))
-- 
2.43.0


From 8498863b302ecdd0fec16909c3ff46c178976e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:24 +0000
Subject: [PATCH 08/21] fix: switch min/max recording on and off for every
 trace_minmax call

With rst=False nothing was recorded at all, and with no_bops_computation=True recording stayed on,
so that any later inference kept widening the calibrated ranges.
---
 src/HGQ/bops/bops.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index 1b55a96..713d134 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -55,11 +55,11 @@ class CalibratedBOPs(tf.keras.callbacks.Callback):
 
 
 def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
-    if rst:
-        for layer in model.layers:
-            if isinstance(layer, HLayerBase):
+    for layer in model.layers:
+        if isinstance(layer, HLayerBase):
+            if rst:
                 layer.reset_minmax()
-                layer.record_minmax = True
+            layer.record_minmax = True
 
     r = []
     if isinstance(dataset, list):
@@ -70,6 +70,10 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         for i in range(0, dataset.shape[0], bsz):
             r.append(model(dataset[i:i + bsz], training=False))
 
+    for layer in model.layers:
+        if isinstance(layer, HLayerBase):
+            layer.record_minmax = False
+
     if cover_factor != 1.0:
         assert cover_factor > 0.
         if cover_factor < 1:
@@ -115,7 +119,6 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
     bops = 0
     for layer in model.layers:
         if isinstance(layer, HLayerBase):
-            layer.record_minmax = False
             dbops = layer.compute_exact_bops  # type: ignore
             bops += dbops
             if verbose:
-- 
2.43.0


From 179185fc60292c6af9876ec4db1fb73b2899aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:24 +0000
Subject: [PATCH 09/21] fix: trace layers in nested models in trace_minmax

FreeBOPs, ResetMinMax and to_proxy_model handle nested models, but trace_minmax skipped them: the
layers kept stale ranges, and their BOPs were not counted.
---
 src/HGQ/bops/bops.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index 713d134..e7a08b7 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -54,8 +54,18 @@ class CalibratedBOPs(tf.keras.callbacks.Callback):
         logs['bops'] = bops
 
 
-def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
+def _all_layers(model):
+    """Layers of the model, including these in nested models."""
     for layer in model.layers:
+        if isinstance(layer, keras.Model):
+            yield from _all_layers(layer)
+        else:
+            yield layer
+
+
+def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=False, no_bops_computation=False, rst=True, cover_factor=1.0):
+    layers = list(_all_layers(model))
+    for layer in layers:
         if isinstance(layer, HLayerBase):
             if rst:
                 layer.reset_minmax()
@@ -70,7 +80,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         for i in range(0, dataset.shape[0], bsz):
             r.append(model(dataset[i:i + bsz], training=False))
 
-    for layer in model.layers:
+    for layer in layers:
         if isinstance(layer, HLayerBase):
             layer.record_minmax = False
 
@@ -78,7 +88,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         assert cover_factor > 0.
         if cover_factor < 1:
             warn(f'cover_factor<1.0 will likely to result in overflows.')
-        for layer in model.layers:
+        for layer in layers:
             if not isinstance(layer, HLayerBase):
                 continue
 
@@ -92,7 +102,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
             aq._min.assign(aq(tf.constant(_min)))  # type: ignore
             aq._max.assign(aq(tf.constant(_max)))  # type: ignore
 
-    for layer in model.layers:
+    for layer in layers:
         if not hasattr(layer, 'activation'):
             continue
         if not isinstance(layer, HLayerBase):
@@ -117,7 +127,7 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
         return -1
 
     bops = 0
-    for layer in model.layers:
+    for layer in layers:
         if isinstance(layer, HLayerBase):
             dbops = layer.compute_exact_bops  # type: ignore
             bops += dbops
-- 
2.43.0


From 52475707aaea43782dd72cea4cea3d20684c166e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:41 +0000
Subject: [PATCH 10/21] fix: keep the quantization grid when narrowing proxy
 quantizers

get_produced_kif reduced the integer bits of each element but left its total
bits, which silently moved the fractional bits of heterogeneous quantizers; it
also dropped bits needed after rounding to coarse steps, or on overflow.
---
 src/HGQ/proxy/precision_derivation.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index 423973b..b8dc71f 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -91,18 +91,21 @@ def _(layer: FixedPointQuantizer):
     assert len(kifs) == 1, f'Quantizer {layer.name} has more than one input. This is not supported.'
     _ik, _ii, _if = kifs[0]
 
-    # If the quantizer bit width is unnecessarily large, reduce it.
-    ok, oi, of = layer.result_t_kif
-    k, i, f = min(_ik, ok), min(_ii, oi), min(_if, of)
-    if _ii <= oi and _if > f:
-        # May overflow otherwise, like (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow.
-        i += 1
-    if k != ok or i != oi or f != of:
-        layer.keep_negative.assign(tf.minimum(layer.keep_negative, k))
-        layer.integers.assign(tf.minimum(layer.integers, k + i))
-        layer.bits.assign(tf.minimum(layer.bits, k + i + f))
+    # If the quantizer bit width is unnecessarily large, reduce it, element by element. The quantized values must not change.
+    k0, b0, i0 = (v.numpy().astype(np.int32) for v in (layer.keep_negative, layer.bits, layer.integers))
+    k, i, f = k0, i0 - k0, b0 - i0
+    # When rounding to (larger) steps of 2^-f, the next step may be reached. (8,4) & (8,5) should result in (9,4) instead of (8,4) to avoid overflow. Symmetric saturation shall never see the most negative value.
+    i_max = np.where((f < _if) | (layer.SAT == 'SAT_SYM'), np.maximum(_ii, -f) + 1, _ii)
+    safe = i >= i_max  # otherwise, overflow may occur and the result depends on the other bits.
+    k, i = np.where(safe, np.minimum(k, _ik), k), np.minimum(i, i_max)
+    f = np.where(safe | (layer.SAT == 'WRAP'), np.minimum(f, _if), f)
+    b = np.where(b0 > 0, np.maximum(k + i + f, 0), 0)
+    layer.keep_negative.assign(np.where(b > 0, k, 0))
+    layer.bits.assign(b)
+    layer.integers.assign(np.where(b > 0, k + i, 0))
 
-    return k, i, f
+    k, i, f = layer.result_t_kif
+    return int(k), int(i), int(f)
 
 
 @get_produced_kif.register
-- 
2.43.0


From af10e6b6350ffec38abb64226a9a8ad0283252ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:41 +0000
Subject: [PATCH 11/21] fix: account for the bias in the range and precision
 produced by Dense/Conv

The produced precision ignored the bias, so the quantizer after it (and the
accumulator type) could lose bits needed to represent it.
---
 src/HGQ/proxy/precision_derivation.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/proxy/precision_derivation.py b/src/HGQ/proxy/precision_derivation.py
index b8dc71f..47fbfea 100644
--- a/src/HGQ/proxy/precision_derivation.py
+++ b/src/HGQ/proxy/precision_derivation.py
@@ -164,16 +164,23 @@ def _(layer: keras.layers.Dense | Conv):
     kifs = get_input_kifs(layer)
     assert len(kifs) == 1, f'Dense layer {layer.name} has more than one input. This is not supported.'
     k, i, f = kifs[0]
-    w_k, w_i, w_f = get_arr_container(layer.kernel.numpy())
+    kernel = layer.kernel.numpy()
+    w_k, w_i, w_f = get_arr_container(kernel)
     k = int(k or w_k or np.any(layer.use_bias and layer.bias < 0))  # type: ignore
-    i, f = i + w_i, f + w_f
     if isinstance(layer, Conv):
         div = layer.filters
     else:
         div = layer.units
 
-    multiplicity = np.prod(layer.kernel.shape) / div
-    i += int(np.ceil(np.log2(multiplicity)))
+    # |sum(w*x)+b| <= 2^i * (sum(|w|) + |b| * 2^-i)
+    magnitude = np.sum(np.abs(kernel.reshape(-1, div).astype(np.float64)), axis=0)
+    f = f + w_f
+    if layer.use_bias and np.any(layer.bias != 0):
+        bias = layer.bias.numpy().astype(np.float64)
+        magnitude = magnitude + np.abs(bias) * 2.**-i
+        f = max(f, get_arr_container(bias)[2])
+    max_magnitude = np.max(magnitude)
+    i += int(np.floor(np.log2(max_magnitude))) + 1 if max_magnitude > 0 else w_i
     return k, i, f
 
 
-- 
2.43.0


From f6a65a012cb15a7b24d7a295027c76b3a6f62a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:01 +0000
Subject: [PATCH 12/21] fix: do not rename the layers of the model being
 converted

A layer used more than once was renamed in the source model as well, which
broke get_config/save of the source model.
---
 src/HGQ/proxy/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index 2f9d508..8947400 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -160,9 +160,9 @@ def apply_layer(
 
     if layer_xf is not None:
         name = namer.next_name(layer_xf.name)
-        layer_xf._name = name
-        # Remove all inbound and outbound nodes to clean up the graph.
+        # Remove all inbound and outbound nodes to clean up the graph. The original layer shall stay untouched.
         layer_xf = copy(layer_xf)
+        layer_xf._name = name
         layer_xf._inbound_nodes = []
         layer_xf._outbound_nodes = []
         return layer_xf(inp_tensors)
-- 
2.43.0


From 12024bacf3f23d848439a105544dd55c52a01c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:24 +0000
Subject: [PATCH 13/21] fix: quantize the bounds when clamping the traced range
 of sigmoid/tanh

With negative fractional bits, the quantized outputs of tanh/sigmoid may be outside of [-1, 1]/[0, 1]; clamping
the traced range to the unquantized bounds then makes the derived bitwidth too small for values that do occur, or
leaves an empty range that cannot be converted at all.
---
 src/HGQ/bops/bops.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index e7a08b7..44f9769 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -115,13 +115,14 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
 
         if is_keras_activation(layer.activation, 'sigmoid'):
             # <0 or >1 for sigmoid does not make sense. Undo the effect of cover_factor.
+            # The bounds have to be quantized too, or they may exclude values that do occur (e.g., with negative fractional bits).
             aq._min.assign(tf.maximum(aq._min, tf.zeros_like(aq._min)))  # type: ignore
-            aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
+            aq._max.assign(tf.minimum(aq._max, aq(tf.ones_like(aq._max))))  # type: ignore
 
         if is_keras_activation(layer.activation, 'tanh'):
             # <-1 or >1 for tanh does not make sense. Undo the effect of cover_factor.
-            aq._min.assign(tf.maximum(aq._min, -tf.ones_like(aq._min)))  # type: ignore
-            aq._max.assign(tf.minimum(aq._max, tf.ones_like(aq._max)))  # type: ignore
+            aq._min.assign(tf.maximum(aq._min, aq(-tf.ones_like(aq._min))))  # type: ignore
+            aq._max.assign(tf.minimum(aq._max, aq(tf.ones_like(aq._max))))  # type: ignore
 
     if no_bops_computation:
         return -1
-- 
2.43.0


From 1b52aa7b314d5c99dbd21665a46fc2b5a65b37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:59 +0000
Subject: [PATCH 14/21] fix: derive the exact bitwidths with enough precision

In float32, log2(2^18 + 2^-4) is 18: with large but exactly representable values, one integer bit was missing and the
largest traced value overflowed in the proxy model; for relu, one bit too many could be reported. For kernels, log2(n + 1)
is log2(n) when n is a large power of 2, and one bit too many was reported.
---
 src/HGQ/quantizer/quantizer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/HGQ/quantizer/quantizer.py b/src/HGQ/quantizer/quantizer.py
index 94f3d55..a6371eb 100644
--- a/src/HGQ/quantizer/quantizer.py
+++ b/src/HGQ/quantizer/quantizer.py
@@ -43,7 +43,7 @@ def get_arr_bits(arr: np.ndarray):
     arr = arr * 2**mul
     arr = np.abs(arr)[..., None]  # type: ignore
     n = int(np.ceil(np.max(np.log2(arr + 1))))  # type: ignore
-    divisor = 2**np.arange(1, n)[None, ...]  # type: ignore
+    divisor = 2**np.arange(1, n + 1)[None, ...]  # type: ignore
     low_pos = np.sum(arr % divisor == 0, axis=-1) + (arr[..., 0] == 1)
     with np.errstate(divide='ignore'):
         high_pos = np.where(arr[..., 0] != 0, np.floor(np.log2(arr[..., 0]) + 1), low_pos).astype(np.int8)
@@ -250,16 +250,18 @@ class HGQ:
         if ref is None and self.minmax_record:
             assert tf.reduce_all(self._max - self._min >= 0), "Some min values are larger than max values. Did you forget to run trace_minmax?"  # type: ignore
             f = tf.round(self.fbw).numpy()  # type: ignore
+            # float32 logarithm can not tell large values from the power of 2 next to them
+            _min, _max = self._min.numpy().astype(np.float64), self._max.numpy().astype(np.float64)  # type: ignore
             with np.errstate(divide='ignore'):
                 if pos_only:
-                    _ref = np.maximum(self._max, 0.)  # type:ignore
+                    _ref = np.maximum(_max, 0.)
                     i = np.floor(np.log2(_ref)) + 1
-                    k = np.zeros_like(self._max)
+                    k = np.zeros_like(_max)
                 else:
-                    i_neg = np.ceil(np.log2(np.abs(self._min)))  # type:ignore
-                    i_pos = np.ceil(np.log2(np.abs(self._max + 2.**-f)))  # type:ignore
+                    i_neg = np.ceil(np.log2(np.abs(_min)))
+                    i_pos = np.ceil(np.log2(np.abs(_max + 2.**-f)))
                     i = np.maximum(i_neg, i_pos)
-                    k = (self._min.numpy() < 0)  # type:ignore
+                    k = (_min < 0)
             i = np.clip(i, -f - k, 32)
             k, i, f = k.astype(np.int8), i.astype(np.int8), f.astype(np.int8)
             mask = k + i + f != 0
-- 
2.43.0


From c9e1802ea04094d3328e44766407b520756ca078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:10 +0000
Subject: [PATCH 15/21] fix: adapt the kernel bitwidths of HDenseBatchNorm
 exactly once

In a compiled training step the adaption was either traced into the graph and
repeated in every step (e.g., when training a loaded model), or lost with the
first trace. Loading a trained model and training it further also adapted the
trained bitwidths again.
---
 src/HGQ/layers/batchnorm_base.py | 2 +-
 src/HGQ/layers/dense.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index de027da..96cdf09 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -137,7 +137,7 @@ class HBatchNormBase(HLayerBase):
 
         fbw = tf.identity(self.kq.fbw)
         self.kq.fbw.assign(tf.ones_like(fbw) * 32)
-        z = self.forward(x, training=False, record_minmax=False)
+        z, _ = self.jit_forward(x, training=False, record_minmax=False)  # type: ignore
         self.kq.fbw.assign(fbw)
 
         var = tf.math.reduce_variance(z, axis=self._reduction_axis)
diff --git a/src/HGQ/layers/dense.py b/src/HGQ/layers/dense.py
index db476df..4d5c111 100644
--- a/src/HGQ/layers/dense.py
+++ b/src/HGQ/layers/dense.py
@@ -159,8 +159,8 @@ class HDenseBatchNorm(HDense, HBatchNormBase):
     def forward(self, x, training=None, record_minmax=None):
 
         if training and self._do_adapt_kernel_bits and self._delayed_kernel_bits_adaption:
-            self.adapt_fused_bn_kernel_bw_bits(x)
-            self._do_adapt_kernel_bits = False
+            # Only for bitwidths that are still at their initial values: adapt exactly once, also in compiled training steps and after loading a trained model.
+            tf.cond(tf.reduce_all(self.kq.fbw == self.kq.init_bw), lambda: self.adapt_fused_bn_kernel_bw_bits(x), lambda: None)
 
         if training:
             a, kq = self.bn_train_jit_forward(x, True, record_minmax=record_minmax)  # type: ignore
-- 
2.43.0


From 8774219218f7436385922bf911093fa54b80ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:35 +0000
Subject: [PATCH 16/21] fix: keep do_adapt_kernel_bits in the layer config

---
 src/HGQ/layers/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index 493997e..d5e3ec2 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -124,7 +124,6 @@ class HLayerBase(ABSBaseLayer):
             kq.degeneracy = degeneracy
             if self._do_adapt_kernel_bits and not self._delayed_kernel_bits_adaption:
                 kq.adapt_bw_bits(self.kernel)
-                self._do_adapt_kernel_bits = False
             self.kq = kq
 
         aq = HGQ.from_config(self.paq_config)
@@ -250,7 +249,8 @@ class HLayerBase(ABSBaseLayer):
         config = dict(
             kq_conf=self.kq_config,
             paq_conf=self.paq_config,
-            beta=float(self.beta.numpy())  # type: ignore
+            beta=float(self.beta.numpy()),  # type: ignore
+            do_adapt_kernel_bits=self._do_adapt_kernel_bits
         )
         return {**base_config, **config}
 
-- 
2.43.0


From d15a38dd4d560209116800a3e4da55ddd8231401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:56 +0000
Subject: [PATCH 17/21] fix: make MonoL1 deserializable

Restoring a layer from its serialized form (json, .keras) needs from_config.
---
 src/HGQ/utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HGQ/utils/utils.py b/src/HGQ/utils/utils.py
index 64bd043..406ff5f 100644
--- a/src/HGQ/utils/utils.py
+++ b/src/HGQ/utils/utils.py
@@ -17,6 +17,10 @@ class MonoL1:
     def get_config(self):
         return {'l1': self.l1}
 
+    @classmethod
+    def from_config(cls, config):
+        return cls(**config)
+
 
 DEFAULT_KERNEL_QUANTIZER_CONFIG = \
     dict(init_bw=2,
-- 
2.43.0


From de50dd149aa9d44a4f58c987f9893440bef86d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:49 +0000
Subject: [PATCH 18/21] fix: give the variables of a layer distinct names

Models with nested models, or with fused batchnorm layers with neither center
nor scale, could not be saved as h5.
---
 src/HGQ/layers/base.py           | 5 +++--
 src/HGQ/layers/batchnorm_base.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index d5e3ec2..e62667a 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -48,8 +48,6 @@ class HLayerBase(ABSBaseLayer):
         "kernel quantizer config"
         self.paq_config = (paq_conf or get_default_paq_conf()).copy()
         "pre-activation quantizer config"
-        self.beta = tf.Variable(beta, dtype=tf.float32, name='beta', trainable=False)
-        "BOPs-regularization strength"
         self.record_minmax = False
         self._has_last_layer = False
         self._do_adapt_kernel_bits = kwargs.pop('do_adapt_kernel_bits', True)
@@ -65,6 +63,9 @@ class HLayerBase(ABSBaseLayer):
 
         super().__init__(**kwargs)
 
+        self.beta = tf.Variable(beta, dtype=tf.float32, name=f'{self.name}/beta', trainable=False)
+        "BOPs-regularization strength"
+
     def build(self, input_shape):
         super().build(input_shape)
         self.post_build(input_shape)
diff --git a/src/HGQ/layers/batchnorm_base.py b/src/HGQ/layers/batchnorm_base.py
index 96cdf09..bf27ae7 100644
--- a/src/HGQ/layers/batchnorm_base.py
+++ b/src/HGQ/layers/batchnorm_base.py
@@ -75,7 +75,7 @@ class HBatchNormBase(HLayerBase):
                 trainable=False,
             )
         else:
-            self.bn_beta = self.moving_mean = tf.Variable(0.0, trainable=False)
+            self.bn_beta = self.moving_mean = tf.Variable(0.0, trainable=False, name='bn_beta')
         if self.scale:
             self.bn_gamma: tf.Variable = self.add_weight(
                 name="bn_gamma",
@@ -91,7 +91,7 @@ class HBatchNormBase(HLayerBase):
                 trainable=False,
             )
         else:
-            self.bn_gamma = self.moving_variance = tf.Variable(1.0, trainable=False)
+            self.bn_gamma = self.moving_variance = tf.Variable(1.0, trainable=False, name='bn_gamma')
 
     @property
     @tf.function(jit_compile=True)
-- 
2.43.0


From 1fac056b05eeccb89106a63ad48d9eee566172bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:07 +0000
Subject: [PATCH 19/21] fix: return copies of the quantizer configs from
 get_config

---
 src/HGQ/layers/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HGQ/layers/base.py b/src/HGQ/layers/base.py
index e62667a..f12e52c 100644
--- a/src/HGQ/layers/base.py
+++ b/src/HGQ/layers/base.py
@@ -248,8 +248,8 @@ class HLayerBase(ABSBaseLayer):
     def get_config(self):
         base_config = super().get_config()
         config = dict(
-            kq_conf=self.kq_config,
-            paq_conf=self.paq_config,
+            kq_conf=self.kq_config.copy(),
+            paq_conf=self.paq_config.copy(),
             beta=float(self.beta.numpy()),  # type: ignore
             do_adapt_kernel_bits=self._do_adapt_kernel_bits
         )
-- 
2.43.0


From 085566981d84d6c355286efb1ec8c6959b7d1873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:14 +0000
Subject: [PATCH 20/21] fix: return the predictions of multi-output models from
 trace_minmax

---
 src/HGQ/bops/bops.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HGQ/bops/bops.py b/src/HGQ/bops/bops.py
index 44f9769..e06ff4d 100644
--- a/src/HGQ/bops/bops.py
+++ b/src/HGQ/bops/bops.py
@@ -136,6 +136,8 @@ def trace_minmax(model, dataset, bsz=16384, verbose=True, return_predictions=Fal
                 print(f'{layer.name}: {dbops}')
 
     if return_predictions:
+        if isinstance(r[0], (list, tuple)):
+            return bops, [np.concatenate(out, axis=0) for out in zip(*r)]
         return bops, np.concatenate(r, axis=0)
 
     return bops
-- 
2.43.0


From 40bbd4b470f798c5d309b2857441c3877679a93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:59 +0000
Subject: [PATCH 21/21] fix: pick the right output of nested models with
 multiple outputs when flattening

---
 src/HGQ/proxy/convert.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/HGQ/proxy/convert.py b/src/HGQ/proxy/convert.py
index 8947400..99840bc 100644
--- a/src/HGQ/proxy/convert.py
+++ b/src/HGQ/proxy/convert.py
@@ -104,6 +104,11 @@ class Namer:
         return name
 
 
+def _select_out(outs, tensor: KerasTensor):
+    """Pick the output corresponding to the tensor, if its node provides multiple outputs (e.g., nested models)."""
+    return outs[tensor._keras_history.tensor_index] if isinstance(outs, (list, tuple)) else outs
+
+
 def _get_out_tensor(
     dependencies_dict: dict[Node, tuple[keras.layers.Layer, list[Node]]],
     satisfied: dict[Node, Any],
@@ -119,12 +124,10 @@ def _get_out_tensor(
     namer = namer or Namer()
     layer, requires = dependencies_dict[node]
     inps = []
-    for req in requires:
-        if req in satisfied:
-            inps.append(satisfied[req])
-        else:
-            inp = _get_out_tensor(dependencies_dict, satisfied, req, namer, layer_xformer)
-            inps.append(inp)
+    for req, t in zip(requires, node.keras_inputs):
+        if req not in satisfied:
+            _get_out_tensor(dependencies_dict, satisfied, req, namer, layer_xformer)
+        inps.append(_select_out(satisfied[req], t))
     if len(inps) == 1:
         inps = inps[0]
 
@@ -190,7 +193,7 @@ def _(
     input_nodes, output_nodes, dependencies_dict = solve_dependencies(model)
     satisfied = {node: tensor for node, tensor in zip(input_nodes, inp_tensors)}
     get_out_tensor = partial(_get_out_tensor, dependencies_dict, satisfied, namer=namer, layer_xformer=layer_xformer)
-    outs = [get_out_tensor(output_node) for output_node in output_nodes]
+    outs = [_select_out(get_out_tensor(node), t) for node, t in zip(output_nodes, model.outputs)]
     return outs[0] if len(outs) == 1 else outs
 
 
-- 
2.43.0

