#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique, level='exploration', state=()):
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m) for n, m in state], observe_at=[observe], hook_needed=None)),
                  note=note, technique=technique, level=level))


Q = 'src/HGQ/quantizer/quantizer.py'
L = 'src/HGQ/layers/'
X = 'src/HGQ/proxy/'

prop('C01', 'Inference quantization rounds every value onto its declared grid',
     'In inference mode, the output of every quantizer (stand-alone or inside a layer: activations, kernels and biases) is the input rounded to the nearest multiple of 2^-f (ties upwards; downwards for the floor strategy), where f is the '
     'nearest-even rounding of the real-valued bitwidth parameter clipped to its configured range, and elements share f exactly along the configured homogeneous dimensions. '
     'The stochastic and noise-injecting strategies behave as round-to-nearest at inference, and eager and compiled execution agree bit for bit.',
     ['inputs', 'configurations'], 'every finite float32 input, every quantizer configuration (rank, homogeneous dims, rounding strategy, clip range, bitwidth values), eager and compiled',
     'the tests only run a few default configurations end to end, eagerly, and never look at values on ties, at clip limits or under partial homogeneity',
     [Q, L + 'base.py', L + 'misc.py', L + 'dense.py', L + 'conv.py'], [('HGQ.forward', Q), ('q_round and rounding strategies', Q), ('HLayerBase.call / fused_qbias', L + 'base.py')],
     'outputs of quantizer and layer calls, quantized kernels and biases',
     'exact element-wise reference (float64 arithmetic on dyadic values) over random and hostile inputs', 'reference-model monitor on quantizer and layer calls')

prop('C02', 'Quantization in training: values, straight-through and bitwidth gradients',
     'In training mode, deterministic strategies give the same rounded values as at inference, stochastic rounding gives one of the two neighbouring grid points with mean equal to the input, and noise injection perturbs by at most half a step uniformly. '
     'The gradient with respect to the quantized tensor is that of the identity, and the gradient with respect to each bitwidth is minus ln2 times the upstream gradient times the quantization error (rounded minus original), summed over all elements sharing that bitwidth; frozen bitwidths never move.',
     ['inputs', 'configurations', 'schedules'], 'every input, bitwidth, strategy, homogeneous-dims choice, eager and compiled, every random draw',
     'the tests never differentiate and never inspect training-mode values',
     [Q, L + 'base.py'], [('HGQ.forward with training', Q), ('q_round', Q)], 'values and tf.GradientTape gradients',
     'exact where deterministic; per-value bounds plus mean/variance within 8 standard errors for the random strategies', 'reference-model and statistical monitor on values and gradients')

prop('C03', 'Recorded activation ranges follow the calibration history exactly',
     'After any sequence of calibrations (with or without reset, any batch size and sample order), inference, prediction, training-mode passes and range resets, the range recorded for each activation group is exactly the minimum and maximum of the quantized '
     'pre-activation values produced by the calibration and training passes since the last reset. Plain inference and prediction never change it, deriving bitwidths without any record is refused, and layers inside nested models and models with several inputs are covered alike.',
     ['histories', 'inputs', 'configurations'], 'every operation history on every model, eager and compiled',
     'the tests calibrate once per model and never read the ranges',
     [L + 'base.py', Q, 'src/HGQ/bops/bops.py'], [('minmax_record', Q), ('trace_minmax', 'src/HGQ/bops/bops.py')], 'recorded ranges after every operation',
     'shadow interpreter of the history; equality is exact', 'shadow-state monitor over operation histories', state=[('_min/_max', 'recorded range per activation group')])

prop('C04', 'Derived fixed-point bitwidths are sound and minimal',
     'The sign, integer and fractional bits derived for an activation group hold every quantized value between the recorded minimum and maximum, and the ones derived for a weight hold that quantized weight. '
     'They are minimal: no format with fewer integer, fractional or sign bits holds them, and a group or weight that is constantly zero gets zero bits.',
     ['inputs', 'configurations', 'histories'], 'every recorded range and bitwidth, every quantized weight',
     'the tests see bitwidths only through end-to-end agreement on a few random models, where a bit too many is invisible and a bit too few needs the extreme value',
     [Q, L + 'base.py'], [('get_bits_exact / bits_exact', Q), ('act_bw_exact, kernel_bw_exact', L + 'base.py')], 'derived bitwidths against recorded ranges and weights',
     'integer oracle on hostile ranges (powers of two and neighbours, one-sided, zero)', 'integer-oracle monitor on derived bitwidths')

prop('C05', 'The proxy model equals the quantized model on the calibrated range',
     'For every calibrated model, the converted proxy model produces bit for bit the outputs of the quantized model on the calibration data and on any other input on which every intermediate value stays within the recorded ranges. '
     'This holds for every conversion option (wrapping or saturating overflow, unary tables, precision registration), for nested and multi-input/multi-output models, and in eager and compiled execution.',
     ['programs', 'inputs', 'configurations'], 'every model from the supported layers, every in-range input, all conversion options',
     'the tests compare a few fixed architectures with default bit widths, eagerly, on random data',
     [X + 'convert.py', X + 'fixed_point_quantizer.py', X + 'precision_derivation.py', X + 'unary_lut.py', L + 'passive_layers.py'],
     [('to_proxy_model', X + 'convert.py'), ('FixedPointQuantizer', X + 'fixed_point_quantizer.py'), ('precision registration', X + 'precision_derivation.py')], 'outputs of model and proxy',
     'differential, exact; rows with a transcendental on a float32 rounding tie are excluded', 'differential monitor model vs proxy')

prop('C06', 'Generated firmware equals the proxy model bit for bit',
     'The C++ firmware generated from a proxy model through the HLS flow computes exactly the outputs of the proxy model, on the calibration data and, with wrapping overflow, on inputs far outside the calibrated range. '
     'On calibration data both equal the quantized model.',
     ['programs', 'inputs', 'configurations'], 'every convertible model (io_parallel, Vivado/Vitis), every input',
     'the tests do this for a handful of layer configurations on in-range data; the accumulator, bias and table types and the wrap-around path depend on the model and its weights',
     [X + 'convert.py', X + 'precision_derivation.py', X + 'fixed_point_quantizer.py', X + 'unary_lut.py'], [('to_proxy_model', X + 'convert.py'), ('get_config / produced and requested formats', X + 'precision_derivation.py')],
     'compiled firmware outputs', 'exact; trusts hls4ml 1.3.0 as translator, models on which hls4ml itself narrows types inexactly are set aside by a second, neutral translation', 'differential monitor proxy vs compiled firmware')

prop('C07', 'Fixed-point emulation equals ap_fixed in every rounding and overflow mode',
     'For every format (sign, bits, integer bits; scalar, shared or different per element, zero-bit included), rounding mode and overflow mode, the emulated cast maps every value to exactly the value the HLS arbitrary-precision fixed-point type would hold. '
     'Eager and compiled execution agree.',
     ['inputs', 'configurations'], 'every float32 value whose scaled magnitude float32 holds exactly; all 7x5 mode pairs',
     'the tests only use truncation/rounding with wrap or saturation on in-range data',
     [X + 'fixed_point_quantizer.py'], [('gfixed_quantizer / gfixed, rounding and saturation modes', X + 'fixed_point_quantizer.py')], 'outputs of the quantizer layer and functions',
     'integer arithmetic oracle, part of the cases also against the ap_fixed simulation headers', 'integer-oracle and ap_fixed differential monitor')

prop('C08', 'Reported BOPs are the exact bit-operation count of the network',
     'The count reported by calibration and by the calibrated-BOPs callback equals, summed over all layers (nested models included), every multiplication counted as product of the bitwidths of the weight and of the activation it meets, with strides, '
     'dilation, padding, groups and the widths carried through shape, pooling and concatenation layers respected. Zero weights and constantly zero activations count nothing.',
     ['programs', 'inputs', 'histories', 'configurations'], 'every calibrated model and calibration history',
     'the tests never check the count',
     ['src/HGQ/bops/bops.py', L + 'base.py', L + 'dense.py', L + 'conv.py', L + 'passive_layers.py'], [('compute_exact_bops', L + 'base.py'), ('trace_minmax', 'src/HGQ/bops/bops.py'), ('CalibratedBOPs', 'src/HGQ/bops/bops.py')],
     'reported number', 'exact reference count from observed values and weights', 'reference-count monitor')

prop('C09', 'The resource estimate used in training bounds the exact count and drives loss',
     'The estimate each layer maintains (inference and training) equals the documented weighted sum over bitwidth parameters, and is never below the exact count of the calibrated layer. '
     'The model loss contains exactly beta times it plus the configured bitwidth regularization, and its gradient reaches every trainable bitwidth with the value of the derivative of that sum.',
     ['programs', 'configurations', 'inputs'], 'every model, bitwidth assignment, beta, regularizer',
     'the tests never look at losses or gradients',
     [L + 'base.py', L + 'dense.py', L + 'conv.py', 'src/HGQ/bops/bops.py', 'src/HGQ/utils/utils.py'], [('_compute_bops / forward', L + 'base.py'), ('MonoL1', 'src/HGQ/utils/utils.py'), ('FreeBOPs', 'src/HGQ/bops/bops.py')],
     'layer estimate, model losses, gradients', 'finite differences of an independent reference of the estimate', 'reference-model monitor on loss and gradients')

prop('C10', 'Saving and loading reproduces the same model',
     'A model or proxy taken through a supported way of persisting (HDF5 file, weights file into a rebuilt model, cloning, single-layer configuration) and back computes the same outputs, has the same weights, bitwidths and options, '
     'calibrates and converts to the same result, and continues training identically.',
     ['programs', 'histories', 'configurations'], 'every model (trained or not, non-default options), every way of persisting',
     'the tests save and load proxies of a few fixed architectures and compare predictions only',
     [L + 'base.py', L + 'batchnorm_base.py', L + 'dense.py', L + 'conv.py', L + 'passive_layers.py', X + 'fixed_point_quantizer.py', X + 'unary_lut.py', 'src/HGQ/utils/utils.py'],
     [('get_config / from_config', L + 'base.py'), ('build and variables', L + 'base.py')], 'outputs, weights and configuration after the round trip',
     'differential, exact; HDF5/weights/clone ways (JSON and .keras restoring hangs in this sandbox for any Keras model)', 'differential monitor across save/load')

prop('C11', 'Inference, calibration, conversion and saving leave the model untouched',
     'Calling, predicting, evaluating, calibrating, converting, saving, asking for configuration or running the BOPs callbacks never changes weights, names, options or outputs of the model; only calibration changes the recorded ranges, and the same calibration data gives the same ranges and count again. '
     'Converting twice with the same options gives the same proxy, and the proxy shares no state with the model: changing one leaves the other as it was.',
     ['histories', 'programs', 'configurations'], 'every history of read-only operations on every model',
     'the tests use every model once, in one order',
     [X + 'convert.py', 'src/HGQ/bops/bops.py', L + 'base.py'], [('to_proxy_model', X + 'convert.py'), ('trace_minmax', 'src/HGQ/bops/bops.py'), ('get_config', L + 'base.py')], 'snapshots between operations',
     'snapshots compared exactly after every operation', 'frame-condition monitor over operation histories')

# --- more

EXTRA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'spec2.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for d in P:
            fh.write(json.dumps(d['p']) + '\n')
    man = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='HGQ_VERIF (unused: the monitors observe public behaviour and need no hook in the source)', enable='nothing to enable', source_commits=[]),
               checks=[dict(property=d['p']['id'], quick_cmd=f"./vrun.py {d['p']['id']} --tier quick", thorough_cmd=f"./vrun.py {d['p']['id']} --tier thorough", technique='runtime monitoring: ' + d['technique'], level=d['level'],
                            level_note=d['note'] + '; held on the executions observed, whose number and distinct states are in the evidence file') for d in P],
               not_applicable=NA if 'NA' in globals() else [])
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    for d in P:
        assert len(d['p']['title']) <= 80, d['p']['id']
        assert d['p']['statement'].count('. ') <= 2, (d['p']['id'], d['p']['statement'])
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for d in P:
            jsonschema.validate(d['p'], s)
        jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
        print('valid', len(P))
    except ImportError:
        print('no jsonschema')
