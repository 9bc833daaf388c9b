import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
U="src/tensor/utils.rs"; R="src/tensor/raw_tensor.rs"; RC="src/tensor/rc_tensor.rs"; V="src/tensor/tensor_view.rs"; TL="src/tensor/tensor_like.rs"
E="src/tensor/functional/element_wise_ops.rs"; M="src/tensor/functional/misc.rs"; J="src/tensor/autograd/jvp.rs"
p("C01","Element lookup is row-major, one-to-one and bounds-checked",
 "Looking up a tensor element by a full multi-index that is in range on every axis returns exactly the element stored at the row-major position of that index, so distinct in-range indices reach distinct storage slots and together they reach all of them. A full multi-index that is out of range on an axis of size other than one is reported as an error and never yields an element.",
 ["inputs"],"every shape (any rank, any axis sizes), every tensor content, every full-length multi-index",
 "The tests read a dozen hand-picked positions of tensors of rank three or less; injectivity, surjectivity and rejection are universally quantified over shapes and indices.",
 [U,R,RC],[("global_index","%s:global_index"%U),("get/set","%s:get, set, Index::index"%R)],
 [("array","row-major storage",R),("shape","axis sizes",R)])
p("C02","Lookup broadcasts over size-one, surplus and missing axes",
 "On lookup, the coordinate given for an axis of size one is ignored, surplus leading coordinates are ignored, and leading coordinates may be left out only where every omitted axis has size one; every other too-short index is reported as an error. The element returned is the one at the index obtained by filling in zero for the ignored or omitted coordinates.",
 ["inputs"],"every shape, every index of any length (shorter, equal or longer than the rank)",
 "One doc test checks three surplus-coordinate reads; the rule must hold for every combination of shape and index length.",
 [U,R,V],[("global_index","%s:global_index"%U),("view lookup","%s:get"%V)])
p("C03","Iteration visits every element exactly once in row-major order",
 "Iterating the indices or the elements of a tensor or a view yields each in-range multi-index, respectively its element, exactly once and in row-major order, and then ends. A tensor or view with an axis of size zero yields nothing.",
 ["inputs"],"every shape including rank zero and empty axes, every tensor and view",
 "The tests walk shapes [2,3,2], [2,2,2] and [3]; carries across several exhausted axes, rank zero and empty axes are not reached.",
 [U,TL],[("increment_index","%s:increment_index, reset_trailing_indices"%U),("IndexIterator/ElementIterator","%s:next"%U)])
p("C04","Element count always equals the product of the shape",
 "Every tensor a caller can construct or obtain from an operation holds exactly as many elements as the product of its axis sizes (one for a scalar). Construction from a flat array keeps the array and shape as given and refuses an array of any other length; construction by filling yields the fill value everywhere; construction from nested sequences prepends the outer length to the common inner shape, concatenates the elements in order, and refuses ragged input.",
 ["inputs","histories"],"every constructor and operation, every shape and content, every nesting depth",
 "Tests construct a handful of tensors of matching size; the invariant must hold for all results of all operations, and rejection is never tested.",
 [R,RC,E,M],[("constructors","%s:new, new_with_filler, scalar, From"%R),("operation results","%s, %s"%(E,M))])
p("C05","A view shows exactly its window of the underlying tensor",
 "A view made from one half-open range per axis has the range lengths as its shape, and each element it shows, copies out, counts, compares or adds up is the element of the source at the same index shifted by the range starts; slicing a view selects relative to that view. A window that does not fit the source, or has the wrong number of ranges, is refused, and looking up an index outside the view is an error.",
 ["inputs","histories"],"every source tensor, every window, every index, nested slicing",
 "The tests slice three small tensors once; windows on every axis, size-one windows, empty windows and slices of slices are not covered.",
 [V,U],[("TensorView::new/get/to_tensor/sum/count/slice/eq","%s"%V),("offset indexing","%s:global_index"%U)])
p("C06","Reshaping a view keeps its elements in row-major order",
 "Reshaping a view to another shape with the same number of elements yields a view of that shape whose elements, read in row-major order, are those of the original view in row-major order. A shape with a different number of elements is refused.",
 ["inputs"],"every view (windowed or whole), every target shape",
 "No test calls reshape at all.",
 [V],[("reshape and lookup","%s:reshape, get"%V)])
p("C07","Addition and subtraction broadcast by right-aligned shapes",
 "Adding or subtracting two tensors or views whose right-aligned axes agree or are of size one gives the right-aligned broadcast shape, and each result element is the sum (or the sum with the negated right element) of the two operand elements that broadcast to that index. Operands with incompatible shapes are refused.",
 ["inputs"],"every pair of shapes (differing rank, size-one axes, empty axes) and contents; both tensor kinds and views",
 "Tests add a scalar, equal shapes and one leading-axis case; two-sided stretching, interior size-one axes and refusals are not sampled.",
 [E,R,RC,TL],[("generic_binop_raw, max_shape, broadcastable","%s, %s"%(E,TL)),("Add/Sub impls","%s, %s"%(R,RC))])
p("C08","Element-wise functions act pointwise and keep the shape",
 "Negation, absolute value, hyperbolic tangent and rectification of a tensor return a tensor of the same shape whose element at every index is that function of the operand's element at the same index. Rectification maps negative values to zero and every other value to itself.",
 ["inputs"],"every shape and every content, tensors and (for the generic element-wise map) views",
 "Tests check a few vectors and one matrix of positive size; pointwise correctness over all shapes and contents is universal.",
 [E,R,RC],[("generic_unary_op","%s"%E),("neg/abs/tanh/relu","%s, %s"%(E,RC))])
p("C09","Multiplication scales by scalars and multiplies equal shapes pointwise",
 "Multiplying by a zero-dimensional operand on either side returns the other operand's shape with every element multiplied by the scalar, in operand order; multiplying operands of equal shape multiplies them element by element. This holds for views as for tensors, and operands of different non-scalar shapes are refused.",
 ["inputs"],"every pair of operands (tensor or view), every shape and content",
 "Tests multiply one vector by a scalar and two vectors; views, higher ranks and refusals are not covered.",
 [TL,R,RC,M],[("left/right_scalar_multiplication","%s"%TL),("element_wise_multiplication","%s"%M),("Mul impls","%s, %s"%(R,RC))])
p("C10","Sum and dot product take in every element exactly once",
 "The sum of a tensor or view is a scalar equal to zero plus all its elements taken in row-major order; the generalised dot product of two equal-shaped operands is a one-element vector equal to zero plus all products of corresponding elements in row-major order. Dot products of operands with different shapes are refused.",
 ["inputs"],"every shape, content and operand kind (tensor or view)",
 "Tests sum one view and dot one vector; the reduction must be exact for every size and for views in either operand.",
 [R,RC,V,M],[("sum","%s:sum, %s:sum"%(R,V)),("dot_raw","%s"%M)])
p("C11","Matrix product entries are exact row-by-column sums",
 "Multiplying an m-by-k operand, or a batch of them, by a k-by-n operand yields an m-by-n result per batch entry whose (i,j) element is zero plus the products of row i and column j accumulated in order, whatever the number of worker threads. Operands with mismatched inner sizes, a left operand of rank below two or above three, or a right operand that is not a matrix are refused.",
 ["inputs","schedules"],"every batch count and every m, k, n including zero and one, every content, tensors and views",
 "Tests multiply 2x2 matrices; batches, rectangular and degenerate sizes, views, and independence from the thread pool are universal claims.",
 [M],[("bmm_raw","%s:bmm_raw"%M),("bmm entry points","%s, %s, %s"%(R,RC,V))])
p("C12","Gradients of element-wise functions are the pointwise derivatives",
 "Back-propagating through negation, absolute value, hyperbolic tangent or rectification multiplies the incoming gradient, element by element, by the derivative at the operand (minus one; the sign with zero counted positive; one minus the squared tanh; zero for negative and one otherwise). Every such gradient has the operand's element count and works for any operand shape, including a single element and none at all.",
 ["inputs"],"every operand shape and content, every incoming gradient",
 "Tests compare a few values numerically; single-element operands, high ranks and arbitrary incoming gradients are not sampled.",
 [E,J],[("generic_unary_jvp, jvp_from_diagonal_broadcast","%s"%E),("tanh_derivative_outer, abs_jvp, relu closure","%s"%E)])
p("C13","Gradients of addition and subtraction sum over broadcast axes",
 "Back-propagating through an addition (or subtraction) gives each operand, at each of its elements, the sum of the incoming gradient (negated for the right operand of a subtraction) over exactly those result elements that the operand element was broadcast to. The gradient has the operand's element count on both sides.",
 ["inputs"],"every compatible pair of shapes, empty ones included, every incoming gradient",
 "Tests cover equal shapes and a single-element vector; interior size-one axes, two-sided stretching and differing ranks are not sampled.",
 [E],[("generic_binop_jvp, jvp_from_diagonal_broadcast, add_jvp","%s"%E)])
p("C14","Gradients of the matrix product are exact for every size",
 "Back-propagating an incoming gradient G through a matrix product of A and B adds G times B-transposed to A's gradient and A-transposed times G to B's gradient, whatever the sizes; for a batch on the left, B's contributions add up over the batch. Up to floating-point reassociation the result does not depend on the number of worker threads.",
 ["inputs","schedules"],"every m, k, n and batch count including zero, every content and incoming gradient, every thread interleaving",
 "Tests use matrices of at most 16 elements; larger operands cross internal segment boundaries that no test reaches.",
 [M],[("bmm_jvp","%s:bmm_jvp"%M),("SplitArrayWriter","%s:SplitArrayWriter"%M)])
p("C15","Gradients of sum and dot carry the incoming gradient",
 "Back-propagating through a sum gives every operand element the incoming gradient; back-propagating through a dot product gives each operand the other operand's elements times the incoming gradient. Both hold wherever in a larger computation the sum or dot occurs.",
 ["inputs","histories"],"every operand shape and content, every position in a graph",
 "Tests only differentiate a sum or dot as the very last operation with incoming gradient one.",
 [J,M,RC],[("sum derivative","%s:ones, %s:sum"%(J,RC)),("dot_jvp","%s"%M)])
p("C16","Backward applies the chain rule on every path and accumulates",
 "Running backward on a one-element result adds, to every tensor that contributed to it through recorded operations, the product of derivatives along each path from the result, summed over all paths, in that tensor's own shape and on top of any gradient already there. It changes no other gradient, zeroing removes exactly one tensor's gradient, and running backward on a result with any other number of elements is refused.",
 ["histories","inputs"],"every computation graph built from recorded operations (shared and repeated operands included), every sequence of backward and zeroing calls",
 "Tests run backward on a few short chains; shared operands, repeated backward and interleaved zeroing range over all graphs and histories.",
 [J,R,RC],[("Derivative::compute_jvp","%s"%J),("backward","%s"%RC),("update_grad/zero_grad","%s"%R)],
 [("grad","accumulated gradient cell",R),("grad_fn","recorded derivative",R)])
p("C17","Computing a result leaves operands and gradients untouched",
 "Evaluating any operation leaves the shape, elements and stored gradient of every operand unchanged, and its result starts without a gradient. Only backward and explicit gradient updates or zeroing change stored gradients, and nothing changes the elements or shape of an existing tensor.",
 ["inputs","histories"],"every operation, operand and history",
 "Tests inspect results, not operands, and never look at the gradient of a fresh result.",
 [R,RC,V,E,M],[("operation results built with an empty gradient cell","%s, %s"%(R,RC))])
p("C18","Linear and MLP forward passes compose as defined",
 "A linear layer maps a batch x to activation(x times weights, plus bias with broadcasting), using the identity when no activation was given; a multi-layer network applies its layers in order, each to the previous layer's output. The result carries the derivative of every layer, so backward reaches every weight, bias and input.",
 ["inputs"],"every layer sizes, depth, batch, activation and parameter values",
 "Tests evaluate one 1x2 layer and construct one network that is never evaluated.",
 ["src/nn/linear.rs","src/nn/feed_foward.rs"],[("Linear::forward","src/nn/linear.rs"),("Mlp::forward","src/nn/feed_foward.rs")])
p("C19","Reading and replacing parameters round-trips in order",
 "The parameter list of a linear layer is its weights then its bias, and that of a network is its layers' lists in layer order. Replacing the parameters with a list in that order makes exactly those tensors the weights and biases of the corresponding layers and changes nothing else.",
 ["inputs","histories"],"every depth and every replacement list of matching length",
 "The only test that updates a network is ignored; order and completeness must hold for every depth.",
 ["src/nn/linear.rs","src/nn/feed_foward.rs"],[("params/update_params","src/nn/linear.rs, src/nn/feed_foward.rs")])
p("C20","An SGD step moves every parameter by minus step size times gradient",
 "One optimiser step replaces every parameter p of a module by p minus step size times p's gradient, element by element, keeping order and shape. The new parameters start with no gradient and no recorded history, so later backward passes do not reach the old parameters.",
 ["inputs","histories"],"every module, parameter shape, gradient and step size, every sequence of steps",
 "The only test that takes a step is ignored; the update rule and freshness must hold for every module and every number of steps.",
 ["src/optim/sgd.rs","src/nn/linear.rs","src/nn/feed_foward.rs",TL],[("sgd_step","src/optim/sgd.rs"),("deep_clone","%s"%TL)])
p("C21","Concurrent gradient contributions are never lost",
 "When several threads add gradient contributions to the same tensor at the same time, each addition takes effect on the value left by the previous one, so the stored gradient ends up as the initial gradient plus all contributions.",
 ["schedules"],"every interleaving of gradient additions and reads on a shared tensor",
 "No test shares a tensor between threads; a lost update needs a particular interleaving.",
 [R],[("update_grad","%s:update_grad"%R)],
 [("grad","lock-protected gradient cell",R)])
p("C22","A deep copy has equal contents and no gradient or history",
 "A deep copy of a tensor or view has the same shape and elements, no gradient and no recorded derivative, and owns its gradient: later gradient changes to either one do not show in the other. Making the copy does not change the original's gradient.",
 ["inputs","histories"],"every tensor and view, with or without gradient and history",
 "No test calls deep copy.",
 [TL,R],[("deep_clone","%s"%TL),("Clone for tensors","%s"%R)])
p("C23","Equality means same shape and same elements",
 "Two tensors, or a view and a tensor or view, compare equal exactly when their shapes are identical and their elements at every index are equal; gradients and history play no part.",
 ["inputs"],"every pair of tensors and views, every shape and content",
 "Tests rely on equality as their oracle but only on a few values, mostly in the equal case.",
 [R,RC,V],[("PartialEq impls","%s, %s"%(R,V))])
p("C24","Parallel work completes for every thread-pool size",
 "Every matrix product and its gradient terminate for every worker-pool size of at least one, including when called from inside a worker of that pool.",
 ["schedules","configurations"],"every pool size, every calling context, every interleaving",
 "Tests run with the default pool from the main thread only; a hang depends on pool size, calling context and schedule.",
 [M],[("bmm_raw, bmm_jvp, SplitArrayWriter","%s"%M)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
