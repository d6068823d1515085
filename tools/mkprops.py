#!/usr/bin/env python3
# Writes /verif/properties.jsonl (source of truth for the property texts).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   observe_at=observe or [],hook_needed=None)))
N='prima_undine/src/devices/naive/'
p('C01','Shape algebra: sizes, resizing, equality and compatibility are exact',
 "For every list of dimensions and batch size, a shape's volume is the product of its dimensions, its size is volume times batch, its depth is the position of the last dimension that differs from 1, and two shapes are equal exactly when their dimensions (up to trailing ones) and batches are equal. Resizing a dimension or the batch gives exactly the shape that constructing it directly with those numbers would give, and the compatibility predicates and the shape rules of the operators agree with their element-wise definitions. A shape whose size does not fit the 32-bit size type, or that has a zero dimension or batch, is refused rather than silently given a wrong size.",
 ['inputs'],"All dimension values and batches over the full 32-bit range, all depths up to the bound of the shape type, all positions and new extents for a resize, all pairs of shapes for the predicates.",
 "There is no test of shapes at all; wrapping of a 32-bit product or a stale depth after a resize needs particular dimension values.",
 ['prima_undine/src/shape.rs','prima_undine/src/shape_ops.rs'],
 [('volume/depth bookkeeping','Shape::new, Shape::update_dim'),('has_same_loo_dims, has_compatible_batch, elementwise, concat, slice, matmul ... rules','shape.rs, shape_ops.rs')],['Shape accessors'])
p('C02','Element-wise operations compute their defining formula for every element',
 "Every element-wise operation (arithmetic between tensors, with a constant, or with a scalar tensor; negation, powers, square root, exponentials, logarithm, trigonometric and activation functions) returns a tensor whose every element is the defining function of the corresponding operand elements. When one operand has minibatch size 1, or is a scalar, it is applied to every sample of the other operand, in either operand order. Operands are left unchanged and the result depends on nothing else.",
 ['inputs','configurations'],"All element values; all operand orders and all combinations of batch broadcasting and shapes within the stated bound.",
 "The tests use one fixed value vector per function; a wrong index for a batch or a wrong operand order only shows for particular shape/batch combinations.",
 [N+'add.rs',N+'sub.rs',N+'mul.rs',N+'div.rs',N+'powf.rs',N+'powi.rs',N+'common.rs','prima_undine/src/functions/basic/device.rs','prima_undine/src/functions/arithmetic/tensor.rs'],
 [('element-wise kernels','devices/naive/common.rs macros and per-op files'),('operator dispatch','functions/arithmetic/*.rs')],['Tensor::to_vec'])
p('C03','Reductions, matrix products and broadcasts equal their definitions',
 "Sum, log-sum-exp, maximum and minimum over an axis, sum over the minibatch, transposition, matrix product, broadcast along an axis and triangular masking return, for every output position of every sample, the value given by their mathematical definition over the input, for any tensor depth, any axis (including one past the last dimension) and any combination of minibatch sizes the operation accepts. Operands are left unchanged.",
 ['inputs','configurations'],"All element values, axes, shapes and batch combinations within the stated bound, including matrix sizes that cross the kernel's blocking factor.",
 "The tests fix a handful of shapes and values.",
 [N+f for f in ('sum.rs','logsumexp.rs','max.rs','min.rs','batch_sum.rs','transpose.rs','matmul.rs','broadcast.rs','triangular_l.rs','triangular_u.rs')],
 [('index arithmetic with lower volumes and batch skips','the listed kernels')],['Tensor::to_vec'])
p('C04','Data-movement operations place every element exactly where they should',
 "Slicing, picking, concatenating, splitting, reshaping, flattening, flipping and permuting dimensions, along a dimension or along the minibatch, copy every input element bit-exactly to the output position its definition gives and invent no element. Splitting followed by concatenating, flipping twice, and permuting there and back give the original tensor.",
 ['inputs','configurations'],"All element bit patterns, all axes, bounds, index lists and batch combinations within the stated size bound.",
 "The tests check particular index lists on particular shapes.",
 [N+f for f in ('slice.rs','pick.rs','concat.rs','batch_slice.rs','batch_pick.rs','batch_concat.rs','flip.rs','permute_dims.rs','identity.rs')]+['prima_undine/src/functions/basic/device.rs'],
 [('offset/stride computation','the listed kernels')],['Tensor::to_vec'])
p('C05','Arg-max, arg-min and arg-sort return correct positions',
 "For any tensor without NaN, the arg-max (arg-min) along an axis is, for every line along that axis in every sample, a valid position holding a largest (smallest) value, the first such position when several are equal; arg-sort gives, for every line, a permutation of the (flat) positions of that line's elements, stored along the line, that puts their values in ascending order.",
 ['inputs','configurations'],"All element values (including ties, infinities and signed zeros), all axes and shapes within the bound.",
 "The tests use one fixed tensor without ties.",
 [N+'argmax.rs',N+'argmin.rs',N+'argsort.rs'],[('comparison loops','the listed kernels')],['Tensor::argmax, argmin, argsort'])
p('C06','Every operation\'s backward pass adds the true vector-Jacobian product',
 "For every operation, wherever it is differentiable, the backward pass adds to each operand's gradient buffer exactly the output gradient multiplied by the derivative of the operation's forward result with respect to that operand, and changes nothing else. This holds for every element, every axis, constant, index list, scalar operand and minibatch combination, where a broadcast operand receives the sum over everything it was broadcast to, and for any earlier contents of the buffer. Where a maximum (minimum) is attained several times, only positions attaining it receive the output gradient, once in total.",
 ['inputs','configurations'],"All element values, output gradients and prior gradient contents; all operation arguments, shapes and batch combinations within the bound.",
 "The tests compare against a handful of precomputed numbers with zero-initialised or constant gradients; several operations' backward functions are not reached by any test.",
 ['prima_undine/src/devices/naive','prima_undine/src/operators','prima_undine/src/functions/basic/device.rs'],
 [('*_bw functions and kernels','devices/naive/*.rs, functions/basic/device.rs'),('Operator::backward','operators/*.rs')],['gradient tensors, Parameter::gradient'])
p('C07','Backpropagation through any graph yields the full gradient of every parameter',
 "For any computation graph built from the available operations, running the backward pass from a node adds to each parameter's gradient the derivative of that node (summed over its elements) with respect to that parameter: contributions over all paths are accumulated, shared sub-expressions, repeated operands and nodes used several times are counted exactly once per use, only the chosen output of a multi-output operation is differentiated, and unused outputs contribute nothing. Gradients accumulate over successive graphs until they are reset, and parameters that do not influence the node keep their gradients.",
 ['programs','inputs','histories'],"All graph topologies within the stated number of nodes, all parameter values, all sequences of backward passes within the bound.",
 "No test builds a graph.",
 ['prima_undine/src/graph.rs','prima_undine/src/operators','prima_undine/src/operators.rs'],
 [('topological order by depth and gradient accumulation','graph.rs backward()'),('Parameter operator','operators/parameter.rs')],['Parameter::gradient'])
p('C08','Lazy graph evaluation gives the same results as eager evaluation',
 "Building an expression from graph nodes and evaluating it yields the same shape and the same values as applying the same operations directly to tensors, for every operation, every operator overload (tensor, constant or scalar on either side), every argument and every order of forward and backward requests. Each operation of a graph is evaluated at most once, evaluating a node again returns the same values, and a shape known before evaluation is the shape of the evaluated result. However long the graph, evaluating, differentiating and dropping it does not need a deeper stack, and an operation is dropped as soon as no node needs it.",
 ['programs','inputs','histories'],"All operations of the public function set, all element values, argument combinations and request orders within the bound.",
 "No test uses graph nodes; a node operation that forwards to the wrong kernel or predicts a wrong shape is invisible to the kernel tests.",
 ['prima_undine/src/graph.rs','prima_undine/src/functions/basic/node.rs','prima_undine/src/functions/arithmetic/node.rs','prima_undine/src/operators'],
 [('Operator::forward_shape / forward','operators/*.rs'),('forward() scheduling','graph.rs')],['Node::to_vec, Node::shape'])
p('C09','Invalid requests are refused and valid ones never touch foreign memory',
 "An operation called with operands of incompatible shapes or minibatch sizes, out-of-range axes, bounds or indices, or a tensor without storage is refused by a panic before any tensor is modified. No call through the safe interface ever reads or writes outside the storage of the tensors involved, and no result depends on memory that was never written.",
 ['inputs','configurations'],"All argument values (axes, bounds, indices over the full 32-bit range) and all shape combinations within the bound.",
 "The tests contain no refusal at all; an out-of-bounds access through a raw pointer is silent in a passing test.",
 ['prima_undine/src/functions/basic/device.rs','prima_undine/src/shape_ops.rs','prima_undine/src/devices/naive','prima_undine/src/tensor.rs'],
 [('shape_ops assertions','shape_ops.rs'),('asserts before kernel calls','functions/basic/device.rs')],['panic; heap contents'])
p('C10','Memory pool: live storage is exclusive, large enough, recycled and released once',
 "For every history of allocating, sharing and dropping tensors, two live tensors never share storage unless one was explicitly made to refer to the other, and each storage block is at least as large as was requested. A dropped block is reused for later requests of its size class instead of growing without bound, every block obtained from the device is returned to it exactly once when the device goes away, and a request that cannot be represented is refused. All of this also holds when several threads use one device at the same time, under every schedule, and no thread blocks another for good.",
 ['histories','inputs','schedules'],"All histories of allocate/drop operations up to the bound, all request sizes over the full 32-bit range, all schedules of 2-3 threads up to the bound.",
 "The memory pool has no test.",
 ['prima_undine/src/memory_pool.rs','prima_undine/src/device.rs','prima_undine/src/tensor.rs'],
 [('reserved lists per power-of-two class, supplied map','memory_pool.rs')],['DeviceImpl::new_handle/drop_handle calls'])
p('C11','Optimizers implement their update rules exactly, step after step',
 "For every sequence of update steps over any set of parameters, plain SGD, momentum SGD and Adam move each parameter value by exactly their published update formula, using that parameter's own gradient and own state from the previous steps, also when a parameter is configured again or another optimizer has updated it in between. L2 weight decay is added to the gradients before the update, gradient clipping rescales all gradients by one common factor exactly when their joint L2 norm exceeds the threshold, the learning-rate scale multiplies the step, and resetting zeroes every registered gradient and nothing else.",
 ['histories','inputs'],"All parameter values, gradients and hyper-parameter values; all step sequences, parameter sets and combinations of decay/clipping within the bound.",
 "The optimizers have no test.",
 ['prima_undine/src/optimizer.rs','prima_undine/src/optimizers.rs','prima_undine/src/optimizers/sgd.rs','prima_undine/src/optimizers/momentum_sgd.rs','prima_undine/src/optimizers/adam.rs'],
 [('update, configure','optimizers/*.rs')],['Parameter::value after update'])
p('C12','Saving and loading a model is lossless and training resumes identically',
 "Serializing tensors, parameters (with their gradient and optimizer state) and models and deserializing them gives, after moving them to a device, bit-identical shapes and values. Continuing to train from the reloaded state takes exactly the same steps as continuing with the original.",
 ['inputs','histories'],"All element bit patterns, shapes and optimizer-state sets within the bound; all points of a training history at which the state is saved.",
 "Serialization has no test.",
 ['prima_undine/src/tensor.rs','prima_undine/src/parameter.rs','prima_undine/src/shape.rs'],
 [('Serialize/Deserialize impls, move_to_device','tensor.rs, parameter.rs, shape.rs')],['values after reload'])
p('C13','A model exposes every one of its parameters exactly once',
 "Listing the parameters of a model, however it is nested from parameters, sub-models, vectors and skipped fields, yields every parameter in declaration order exactly once, identically for the shared and the mutable listing. Moving a model to a device moves all of its parameters, and an optimizer configured or updated with the model touches all of them.",
 ['configurations','inputs'],"All nestings of the model shapes within the bound and all vector lengths within the bound.",
 "Neither the model trait nor the derive macro has a test.",
 ['prima_undine/src/model.rs','prima_undine_derive/src/lib.rs'],
 [('derive(Model)','prima_undine_derive/src/lib.rs')],['Model::parameters'])
p('C14','Composite functions equal their definitions, for tensors and for graphs',
 "Mean, minibatch mean, softmax, log-softmax, softmax cross-entropy (with index or distribution targets), the sum of many tensors, dropout, and batch and layer normalization give, for every element, the value of their mathematical definition over the inputs, for any axis, shape and minibatch combination, both eagerly and in graphs, and their gradients are the derivatives of those definitions.",
 ['inputs','configurations'],"All element values, axes and shapes within the bound; all random masks for dropout.",
 "The contrib crate and the composite functions have no test.",
 ['prima_undine/src/functions/basic/tensor.rs','prima_undine/src/functions/basic/node.rs','prima_undine_contrib/src','prima_undine/src/operators/softmax_cross_entropy.rs'],
 [('composite definitions','functions/basic/*.rs, prima_undine_contrib')],['Tensor::to_vec, Parameter::gradient'])
p('C15','Saturating functions stay finite for every finite input',
 "For every finite input, sigmoid, tanh, softplus, ELU, log-sum-exp, softmax, log-softmax and softmax cross-entropy return a finite, non-NaN result as long as the exact mathematical result and the differences between the inputs of a line are representable, and so do their gradients for output gradients of moderate size; sigmoid and softmax stay in [0, 1], tanh in [-1, 1], softplus and cross entropy against targets in [0, 1] are never negative, log-softmax is never positive, log-sum-exp is never below an operand. In a line of log-sum-exp, softmax or log-softmax that has a finite element, minus infinity (a masked position) has weight zero. Large magnitudes of either sign never overflow to infinity or produce NaN in between.",
 ['inputs'],"All finite single-precision inputs within the stated magnitude, all positions within small tensors.",
 "The tests use values of moderate size only.",
 [N+'softplus.rs',N+'logsumexp.rs',N+'sigmoid.rs','prima_undine/src/functions/basic/tensor.rs'],
 [('max-subtraction and sign split','listed kernels')],['Tensor::to_vec'])
p('C16','Initializers and random tensors have the requested shape, range and scale',
 "Every initializer and random-tensor request fills every element of the target and nothing else, with values drawn through the random source using exactly the requested distribution parameters: constants are exact, uniform draws lie in the half-open interval asked for, Bernoulli draws are 0 or 1, normal draws are mean plus deviation times a standard normal draw (and its exponential for log-normal draws), the identity function of the device gives the identity matrix, a new parameter starts with a zero gradient, the Xavier uniform initializer uses the published bound scale * sqrt(6 / (fan-in + fan-out)), and impossible parameters are refused.",
 ['inputs','configurations'],"All raw values the random source can deliver, all parameters and shapes within the bound.",
 "Initializers have no test; random kernels are not tested for bounds.",
 ['prima_undine/src/initializers','prima_undine/src/random.rs',N+'random.rs','prima_undine/src/functions/random'],
 [('initializer formulas','initializers/*.rs')],['Tensor::to_vec'])
p('C17','What a user plugs in takes part exactly as given',
 "A function registered on a device under a name is what every later call of that name and kind runs, with exactly the operands, numbers and outputs of the call; registering again replaces that name of that kind only, and calling a name that was never registered is refused. A user's own device, operator, optimizer, model or initializer takes part in tensors, graphs, training and moving as the built-in ones do: storage is reached through the device's functions only and is given back, an operator sees the values of its operands, its own results and their gradients and is differentiated once, an optimizer is given every parameter of the model once per step, with decay, clipping and learning-rate scale applied, and an initializer is applied once to the new value.",
 ['inputs','histories','configurations'],"All registrations, calls, values and graphs within the bound.",
 "The repository's tests use the built-in device, operators and optimizers only, and none of the extension points except the device's own functions.",
 ['prima_undine/src/device.rs','prima_undine/src/device_impl.rs','prima_undine/src/operator.rs','prima_undine/src/optimizer.rs','prima_undine/src/initializer.rs','prima_undine/src/graph.rs'],
 [('extension traits','device_impl.rs, operator.rs, optimizer.rs, initializer.rs, model.rs')],['Device::call_fw_impl'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
