"""Process set-up: import TensorFlow and the HGQ package of /repo's working tree."""
import os
import sys
import warnings

os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
warnings.filterwarnings('ignore')

REPO = os.environ.get('HGQ_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
if SRC not in sys.path:
    sys.path.insert(0, SRC)
sys.dont_write_bytecode = True

try:
    import hgq_tf_compat  # noqa: F401  (sandbox shim, must precede tensorflow)
except ImportError:
    pass
import numpy as np  # noqa: E402
import tensorflow as tf  # noqa: E402

tf.config.threading.set_inter_op_parallelism_threads(1)
tf.config.threading.set_intra_op_parallelism_threads(1)
tf.get_logger().setLevel('ERROR')
tf.debugging.disable_traceback_filtering()
from tensorflow import keras  # noqa: E402
import HGQ  # noqa: E402

assert os.path.abspath(HGQ.__file__).startswith(os.path.abspath(SRC)), HGQ.__file__
np.seterr(all='ignore')


def set_mode(mode: str):
    """'eager': tf.functions run op by op (as the repository's tests do); 'jit': compiled, as users run it."""
    tf.config.run_functions_eagerly(mode == 'eager')
