prop('C12', 'Fused batch normalization trains on batch and infers on moving statistics',
     'A fused dense/convolution + batch-normalization layer in training mode normalizes with the mean and variance of the current batch and moves its running statistics towards them by the configured momentum. '
     'In inference mode it folds the running statistics (with epsilon, and with scale, centre and bias as configured) into weight and bias, quantizes the folded weight and bias exactly like the plain layer would, and leaves the statistics alone. '
     'The folded layer equals the plain layer given the folded weights, gradients reach every trainable parameter with the value of the normalization formula, and eager and compiled execution agree.',
     ['histories', 'configurations', 'inputs'], 'every history of training and inference passes, every layer option (rank, stride, padding, groups, momentum, epsilon, scale, centre, bias)',
     'the tests only run the layer in inference with fixed statistics; momentum, axes and the folding order show only over a training history',
     [L + 'batchnorm_base.py', L + 'dense.py', L + 'conv.py'], [('fused_qkernel / fused_qbias / post_process', L + 'batchnorm_base.py'), ('HConvBatchNorm, HDenseBatchNorm', L + 'conv.py')], 'outputs, moving statistics and gradients of the layer',
     'float64 shadow of statistics and folding; exact outputs except within float error of a rounding boundary', 'shadow-state monitor over training histories')

prop('C13', 'Every layer computes its Keras counterpart on the quantized operands',
     'In inference, each layer computes exactly what the Keras layer of the same name and options (strides, dilation, padding, groups, pooling, merging, permuting, reshaping, activation) computes on its input, its quantized weight and bias, '
     'followed by the quantization of its output. The result for a sample does not depend on the other samples in the batch, on the batch size, the order, the entry point (call, predict, compiled function) or the numeric type of the input. '
     'In training mode deterministic layers compute the same, and dropout only drops and rescales.',
     ['programs', 'inputs', 'configurations'], 'every layer, geometry and option combination, every batch, eager and compiled',
     'the tests compare model with proxy, which share the layer code, so that a layer computing the wrong function passes them',
     [L + 'base.py', L + 'dense.py', L + 'conv.py', L + 'misc.py', L + 'passive_layers.py'], [('layer forward', L + 'base.py'), ('HConv.forward', L + 'conv.py'), ('merge layers', L + 'misc.py')], 'value of every node of a model',
     'independent float64 reference per node, exact', 'reference-model monitor on every node, differential over batchings and entry points')

prop('C16', 'Unary tables equal the quantized activation on the whole input domain',
     'A table-implemented activation returns, for every representable input of its declared input type, exactly the activation quantized to its output type, also after the wrap-around of inputs beyond the type and after saving and loading. '
     'Conversion uses a table exactly for the activations whose input width is within the limit given, and the converted model computes the same with and without tables.',
     ['inputs', 'configurations', 'programs'], 'every input/output format, function, rounding and overflow mode, every table entry',
     'the tests use two functions with one width and look only at inputs which the random calibration data hits',
     [X + 'unary_lut.py', X + 'convert.py'], [('UnaryLUT, xfr_to_unary_lut', X + 'unary_lut.py')], 'table outputs over the complete domain, converted models',
     'tables are read over their entire domain against a float64 reference cast by the integer oracle', 'reference-model monitor enumerating each table, differential with/without tables')

prop('C17', 'Layers keep the quantizer configuration they were given, without leaks',
     'A layer behaves according to the quantizer configuration passed to it, or to the defaults in force when it was constructed: shape of the shared bitwidths, initial value, clip range, trainability, rounding and regularization, for weights and activations separately. '
     'Reading, editing or replacing the defaults, or editing the dictionaries that were passed, never affects layers constructed before or other layers sharing the dictionary, nor is a dictionary of the caller ever modified. Malformed defaults are refused and change nothing.',
     ['histories', 'configurations'], 'every history of default changes, dictionary edits and layer constructions',
     'the tests set the defaults once per test and never share or edit configurations',
     ['src/HGQ/utils/utils.py', Q, L + 'base.py'], [('set_default_*_conf / get_default_*_conf', 'src/HGQ/utils/utils.py'), ('HLayerBase.__init__, init_quantizer', L + 'base.py')], 'bitwidth variables, outputs and losses of the layers',
     'shadow of every promised configuration, judged at construction and again at the end of the history', 'shadow-state monitor over configuration histories')

prop('C18', 'Calibration margins and bounded activations are recorded as specified',
     'Calibrating with a cover factor records, for every activation group, the observed range stretched about its centre by that factor and put on the grid, so a factor of at least one always covers what was observed and the converted model is exact on everything inside the stretched range. '
     'Ranges of sigmoid, tanh and softmax activations never extend beyond what these functions can output, and non-positive factors are refused. The predictions returned by a calibration are the model outputs for the data set, in order and for each output.',
     ['histories', 'inputs', 'configurations'], 'every model, data set, factor and history of calibrations with and without reset',
     'the tests use one factor that only shrinks the range and never look at the ranges or the returned predictions',
     ['src/HGQ/bops/bops.py', Q], [('trace_minmax', 'src/HGQ/bops/bops.py')], 'recorded ranges, returned predictions, converted model inside the margin',
     'reference of the stretched and clamped range, exact up to float32 rounding ties of the bound', 'shadow-state and differential monitor over calibration histories')

prop('C19', 'Initial weight bitwidths give every weight the configured precision',
     'With kernel-bit adaption on (the default), a freshly built layer assigns each weight group the fractional width init_bw minus log2 of its largest magnitude, so that weights of any scale start with the same number of significant bits; '
     'fused dense + batch-normalization layers do so for the normalized kernel on their first training pass, exactly once, whether eager or in compiled training. Inference, later training passes and reloading trained weights never adapt again. '
     'With adaption off, every width stays at init_bw.',
     ['inputs', 'configurations', 'histories'], 'every initial kernel, layer kind, homogeneous dims, clip range and history of passes',
     'the tests overwrite all bitwidths with random ones before looking at anything',
     [L + 'base.py', L + 'batchnorm_base.py', L + 'dense.py', Q], [('adapt_bw_bits', Q), ('init_quantizers', L + 'base.py'), ('adapt_fused_bn_kernel_bw_bits', L + 'batchnorm_base.py')], 'kernel bitwidth variables after each operation, quantized kernels',
     'reference widths within 1e-3 bit (a quarter bit for the batch-normalized kernel)', 'reference-model and history monitor on bitwidth variables')

prop('C20', 'Flattening and conversion keep function, names and order of nested models',
     'Flattening a model, and converting a calibrated one, yields a model without nested models that has the same inputs and outputs in the same order and computes the same function, however models are nested inside each other, with any number of inputs and outputs, '
     'reused layers or models, and outputs taken from anywhere. Every layer a result depends on keeps its name (further uses get distinct ones), layer transformations may replace, expand or drop layers, and the original is left as it was.',
     ['programs'], 'every model graph: nesting depth, fan-in and fan-out, reuse, order of inputs and outputs',
     'the tests convert chains and one nested model with a single input and output',
     [X + 'convert.py'], [('convert_model, apply_layer, _get_out_tensor', X + 'convert.py'), ('Namer', X + 'convert.py')], 'outputs and structure of the resulting model',
     'differential against the original model', 'differential monitor on random graphs')
