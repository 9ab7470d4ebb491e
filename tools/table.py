PROPS, NA = [], []


def P(**k):
    PROPS.append(k)


def N(**k):
    NA.append(k)


MATHF = ["lube/math.cpp", "lube/math.h", "lube/func.cpp", "lube/func.h", "lube/var.h", "lube/c++blas.h", "lube/clapack.cpp"]

P(id="C01", title="An array lives exactly as long as something refers to it",
  statement="Every array carries the number of values, references and views that refer to it. Constructing, copying, assigning, indexing, dereferencing, "
            "viewing, resizing and destroying values keep that number right, on return and when an exception leaves the operation; the array is deleted "
            "exactly when the number reaches zero, and deleting it releases its elements once, with their own type, destroying contained values. A view "
            "holds one reference to the array it looks at; a view that cannot be built holds none.",
  quant="every operation that handles the representation, for each operand being undefined, a scalar, an array or a reference to an element, and every exit",
  why="a count that is one off leaks or frees early only on the particular combination of operand kinds or the exceptional exit concerned, and tests do not look at counts",
  files=["lube/var.cpp", "lube/var.h", "lube/heap.cpp", "lube/heap.h", "lube/view.cpp"],
  mech=[("attach, detach and the special members", "var.cpp var(), ~var(), operator=, attach, detach"), ("references", "var.cpp reference, dereference, operator[]"),
        ("counts and deletion", "heap.cpp Heap::attach, detach, ~Heap, dealloc"), ("views", "view.cpp View(), ~View")],
  technique="abstract interpretation with a reference-counting (ownership) domain over all paths including exceptional ones",
  note="Operations of var that do not touch the representation are taken to keep the counts right because they are composed of those that do. "
       "A few entry states (references to elements that are themselves arrays) exceed the bounds of the path partition and are left undecided.",
  design="every constructor, the destructor, assignment, indexing, copy, dereference, view, array and resize is interpreted for each combination of operand "
         "kinds; attach and detach are counted per array object, and at every exit, normal or exceptional, the net count must equal the change in the number of "
         "vars that hold it. attach, detach, the destructor and the view constructors of the array classes are checked against their own fields. "
         "checks/c01.py; about 15 s on 8 cores.")

P(id="C02", title="What is stored in a typed array or value is what is read back",
  statement="An element of an array of any type, or of a view of it, reads as the value at that place with the type of the array; for maps it is the "
            "value or the key as asked. Assigning to an element stores the value converted to the type of the array at that element, and only there. "
            "Values are copied, moved, constructed and dereferenced with type and content unchanged. Conversion to a type gives the C++ conversion of "
            "the value, the real part of a complex value when the result is real, and both parts when it is complex. An array is converted element by element into an "
            "array of that type and the same shape, an array of vars into one of vars; only an array of one element has a single value. A text gives the value read from it, "
            "and is refused if it holds none.",
  quant="all nine element types, all pairs of types for conversion of values and arrays, all indices in range, plain arrays and views with any offset",
  why="tests store and read a few ints, floats and strings; a wrong member of the type switch, offset or conversion for another type is never executed",
  files=["lube/var.cpp", "lube/var.h", "lube/heap.cpp", "lube/heap.h", "lube/view.cpp"],
  mech=[("element access", "heap.cpp Heap::at, deref, key; heap.h ptr*; view.cpp View::at, key"), ("write through references", "var.cpp operator=, dereference"),
        ("conversion", "var.cpp Cast<T>::scalar, Cast<T>::alloc, cast<T>()"), ("typed access", "var.cpp get<T>, ptr<T>")],
  technique="abstract interpretation of the accessors per element type, comparing symbolic addresses and values with their definition",
  note="Which number a text is belongs to the stream operators of C++ and is not part of the claim; how elements are visited is C04; conversions out of range of the result type follow C++.",
  design="Heap::at, key, deref and ptr*, View::at, key and ptr*, var::operator= on references, copy, move and value constructors, get, ptr, dereference and each "
         "of the 49 conversions of values, and those of arrays and texts, are interpreted from states that fix only the type; the address read or written must be storage + size * index (+ view offset), "
         "the value a load of exactly the element, or the conversion of exactly the operand. checks/c02.py; about 3 s.")

P(id="C03", title="Arithmetic computes the operation it names, for every type and placement",
  statement="Addition, subtraction, multiplication, division, power and assignment between values give, element by element, the named operation "
            "on the left operand and the right operand converted to the type of the left one. Out of place the operands are unchanged and the "
            "result is new storage; the compound forms store into and return the left operand. The operator syntax applies the same operations "
            "with the operands in the order written.",
  quant="all seven element types, single values and arrays, in place and out of place, all contents and sizes",
  why="the math test applies a few operators to two or three literals of one or two types; a wrong type case, operand order, in-place variant or "
      "operand overwrite in any other combination is never executed",
  files=MATHF, mech=[("per-type switch of each scalar operation", "math.cpp Add/Sub/Mul/Div/Pow/Set::scalar"),
                     ("BLAS kernels for arrays", "math.cpp *::vector, Mul::scale; c++blas.h wrappers"),
                     ("operator members", "var.h operator+ ... operator/="), ("functor call protocol", "func.cpp operator()")],
  technique="abstract interpretation of LLVM IR computing the element-wise effect of each operation",
  note="BLAS routines are taken to do what their published interface says.",
  design="every scalar and vector method is interpreted once per element type and placement from an entry state that fixes only the type; the "
         "abstract effect (result location, element type, formula over operand elements, element count) must equal the named operation. BLAS "
         "calls are interpreted through the wrappers by their published definition (copy, axpy, scal, tbmv, sbmv with band 0). The operators "
         "and the functor call protocol are interpreted the same way (who is applied to what, what is returned). checks/c03.py; about 3 s.")

P(id="C04", title="Broadcasting applies an operation once to every matching sub-array",
  statement="When an operation is broadcast, it is applied exactly once to each sub-array of the left operand that has the shape of the right "
            "operand (or the dimensions the operation works on), to the matching part of every other operand and of the result, and to nothing else. "
            "A functor applied to operands gives a result of its own; given a result, it works on that one. Operands whose types, dimensions or extents do not fit are rejected with an error before anything is computed.",
  quant="all shapes, dimensions and strides of the operands, all operations",
  why="tests broadcast two small fixed shapes; offsets, counts and rejection for any other combination of dimensions are not executed",
  files=["lube/func.cpp", "lube/func.h", "lube/math.cpp", "lube/math.h"],
  mech=[("unary, binary, arithmetic and n-ary broadcasters", "func.cpp *::broadcast"), ("operation dimension", "mDim set in math.h constructors"),
        ("extent checks", "ArithmeticFunctor::conform, Dot::conform")],
  technique="abstract interpretation with closed forms of counted loops (offset, stride and trip count)",
  design="each broadcaster is interpreted for every case of the dimension relation (single value, inner, whole, too large, type mismatch); the loop "
         "is solved to closed form (iteration number, trip count, induction values), so the offsets and count are compared as formulas over "
         "dim/size/stride whichever way the loop is written. Rejection cases must not return. The comparison loop over extents must cover all "
         "dimensions. checks/c04.py; about 2 s.")

P(id="C05", title="Mathematical functions apply the function they name, in the argument's type",
  statement="floor, sin, cos, tan, atan, sqrt, log and exp of a float, double, complex float or complex double value give that function of it in the "
            "same type (floor for the real types only); real, imag, abs, arg and norm give the corresponding real type. Arrays are processed element by "
            "element, real valued functions of complex arrays giving a real array of the same shape. Other types are rejected with an error and nothing "
            "is written. The member forms act on the object in place, and each function object performs the operation it names.",
  quant="all functions, all four floating types, rejected types, single values and arrays, in place and out of place",
  why="the tests call a few functions on one or two literals; a swapped function, type case or precision in any other combination is not executed",
  files=["lube/math.cpp", "lube/math.h", "lube/var.h", "lube/func.cpp"],
  mech=[("type switch per function", "CMATH_UNARY_FUNCTOR, COMPLEX_UNARY_FUNCTOR"), ("real valued results", "RealUnaryFunctor::alloc"),
        ("member forms", "var.h floor() ... norm(), pow()"), ("function objects", "math.cpp instantiations")],
  technique="abstract interpretation of LLVM IR computing the element-wise effect of each function",
  design="each function's scalar method is interpreted once per type and placement; the abstract value written to the result must be the named function "
         "applied to the element read as the type of the argument, and its type must be right. Allocation, member forms and the class of each global "
         "object are checked the same way. checks/c05.py; about 3 s.")

P(id="C06", title="Reductions, products and rearrangements use the extents of their operands",
  statement="asum, sum and iamax reduce the last dimension of an array: sum of absolute values, sum, and zero based index of the largest absolute value. "
            "dot contracts the last dimension of the left operand with the first of the right, as an inner or a matrix product, overwriting its result. "
            "transpose exchanges the last two dimensions, in place or not; concatenate joins arrays along the last dimension in order; sort orders the "
            "last dimension in place; swap exchanges two arrays. poly gives the coefficients of the polynomial with the given roots, roots the "
            "eigenvalues of the companion matrix of the given coefficients, throwing if they are not found. Results have the shape and element type "
            "these definitions imply; types or shapes an operation cannot handle are rejected with an error.",
  quant="all supported types, shapes and offsets, in place and out of place",
  why="the tests use a single small shape per operation; a wrong extent, leading dimension, offset or allocated shape only shows for other shapes",
  files=["lube/math.cpp", "lube/math.h", "lube/clapack.cpp", "lube/c++blas.h", "lube/c++lapack.h", "lube/transpose-mkl.cpp"],
  mech=[("vector kernels", "math.cpp ASum, Sum, IAMax, Dot, Swap, Sort, Concatenate, Poly, Roots"), ("BLAS wrappers", "clapack.cpp"),
        ("transposition", "transpose-mkl.cpp"), ("result allocation", "*::alloc")],
  technique="abstract interpretation with closed forms of counted loops; BLAS arguments compared symbolically",
  note="BLAS, LAPACK and MKL routines are taken to do what their published interface says; that std::sort sorts is trusted.",
  design="each kernel is interpreted once per type with symbolic shapes and offsets. The single element written by a reduction, the thirteen arguments of "
         "the matrix product, the regions exchanged, copied, sorted or transposed, and the shape and type of the allocated result are compared with the "
         "definition as formulas over the operands' extents. Loops (sum, concatenation, polynomial recurrence, companion matrix) are put in closed form "
         "first. checks/c06.py; about 3 s.")

P(id="C08", title="An index outside the array is refused and changes nothing",
  statement="Reading an element by at(), operator() or key(), reading or setting the dimensions, strides and offset of a view, inserting, removing, popping and "
            "shifting elements, resizing to a negative size and taking a subview without dimensions throw an exception when the index is outside the array "
            "or the operation does not apply to what the value holds (undefined, not a map, a view), and leave the array unchanged. Indices inside are accepted. operator[] refuses negative "
            "indices and otherwise grows the array to exactly one more than the index. operator() checks every index against its own dimension and "
            "selects the element at the sum of index times stride. at(key) gives nil for a key that is not there.",
  quant="all sizes and indices, including -1, the size itself and beyond; plain arrays, maps, views with any offset and number of dimensions",
  why="reading just outside an array usually returns some value in a test; off-by-one bounds show only at the one index concerned, for the container concerned",
  files=["lube/var.cpp", "lube/heap.cpp", "lube/heap.h", "lube/view.cpp"],
  mech=[("checks of values", "var.cpp at, operator[], operator(), bounds, insert, remove, key, resize, subview, shape, stride"), ("checks of arrays", "heap.cpp Heap::at, key, shift"),
        ("checks of views", "view.cpp View::at, key, shape, stride, offset, resize, shift, unshift")],
  technique="path-sensitive abstract interpretation with linear bounds: reachability of return and of effects under out-of-range entry facts",
  note="Exceptions of the language library (allocation) are not part of the claim. ptr<T>() is raw access by design and is not checked by the library.",
  design="each accessor is interpreted from entry states that place the index below zero, at the size, beyond it, and inside (facts over the symbolic size); outside, no "
         "path may return and nothing reachable after the call may have been written, resized or shifted before the throw; inside, no path may throw. For operator() the loop "
         "over the dimensions is put in closed form and each iteration must check index d against shape(d) and add index times stride(d). checks/c08.py; about 2 s.")

P(id="C09", title="Growing and shrinking keeps what the array holds, inside its storage",
  statement="Resizing an array to n elements leaves it with exactly n; the elements below both the old and the new size stay as they are, those beyond the new "
            "size let go of what they hold, and there is storage for every element, plus one for the terminating zero of text, which is always there. When "
            "storage is replaced, everything has moved before the old storage is released, once, as the type it was acquired as; when there is no memory the "
            "array stays as it was. A value or nothing becomes an array of the asked size and of its own type, the value in front.",
  quant="all sizes, capacities and element types; arrays with and without storage; allocation failing",
  why="capacities are powers of two, so that most tests never reach the size at which storage is one short; leaks and lost terminators do not show in results",
  files=["lube/heap.cpp", "lube/var.cpp"],
  mech=[("storage", "heap.cpp Heap::resize, allocSize, alloc, dealloc"), ("values become arrays", "var.cpp var::resize, array")],
  technique="abstract interpretation with linear bounds, closed forms of counted loops and a halving/doubling loop rule",
  note="That elements not covered by a move keep their place is by construction: no other write to storage exists on the path.",
  design="Heap::resize is interpreted per element type, with and without storage, over symbolic size, capacity and n. On every way out size, type, capacity and data are "
         "compared with the bytes asked of new[]; room for n (n+1 for text) must follow from the path's linear facts, a loop that halves s while doubling d "
         "contributing d >= s0+1, tight. Moves, releases and the store of the terminator are looked for in closed form and in order. checks/c09.py; about 2 s.")

P(id="C10", title="A view is exactly the part of its array that its shape and offset name",
  statement="A view made with extents d0...dn and an offset has these extents, the last stride 1 and every other the product of the later extents, and begins "
            "at the offset, counted from the beginning of the array or of the view it is made of; it always refers to the array itself. A view without dimensions, with "
            "a negative extent or offset, or reaching beyond the array is refused, one that fits is not. Element i of a view, however it is reached (pointer, value, "
            "reference, key), is element offset+i of the array. The size is the product of the extents. Elements may be copied over only between equal types and shapes. "
            "subview gives the last dimensions at an offset; shape() lists the extents; view(shape, type) makes an array with as many new elements as the shape says, of "
            "that type, without touching what was given as type.",
  quant="all extents, numbers of dimensions and offsets, views of arrays and of views, all element types",
  why="tests view one small matrix with one offset; overflowing products, negative extents, views of views and the order of strides in three dimensions are not sampled",
  files=["lube/view.cpp", "lube/heap.h", "lube/var.cpp"],
  mech=[("construction", "view.cpp View::View, setStrides"), ("access", "heap.h View::ptrT, deref*, size, type; view.cpp at, key, shape, stride"),
        ("compatibility", "view.cpp View::copyable"), ("values", "var.cpp var::view, subview, shape, libube::view")],
  technique="abstract interpretation with closed forms of counted loops and linear bounds on every path",
  note="An array made smaller after a view of it was taken is outside the claim: views do not follow changes of their array. offset(int) is bounded in C08.",
  design="both constructors are interpreted for arrays and views with symbolic extents; stores are put in closed form over the iteration number, the running product is recognised as "
         "the induction variable multiplied by each extent, and fit, sign and overflow must follow from the linear facts of every path that returns; every path that throws must contain "
         "one of the facts that make a view unfit. Access methods are compared with offset+i as formulas. checks/c10.py; about 2 s.")

P(id="C11", title="Editing a sequence moves every other element exactly once",
  statement="insert puts the new element or elements at the index and moves the rest up unchanged and in order, also when what is inserted is the array itself or an "
            "element of it; remove, pop and shift return the value that leaves and close the gap; unshift, push and append put what they are given, converted to "
            "the type of the array, at the named end. In maps keys move with their values. The size changes by exactly the number of elements "
            "that came or went; presize leaves content and size alone. Pushing a value of another type onto a single value is refused without changing it.",
  quant="all sizes and positions, all nine element types, undefined values, single values and arrays, pieces that are part of the array itself",
  why="an element lost, doubled or overwritten before it moved depends on position, size, element type and aliasing; tests edit one or two short arrays",
  files=["lube/var.cpp", "lube/var.h", "lube/heap.cpp"],
  mech=[("edits of values", "var.cpp insert, remove, push, pop, shift, unshift, presize, clear, append"), ("moves in storage", "heap.cpp Heap::shift, unshift, append")],
  technique="abstract interpretation with closed forms of counted loops; the sequence of element moves is compared with the specified index map and checked for overlap order",
  note="Elements of a map are cleared on insertion. A conversion that fails while something is pushed or put in front may leave the array longer by one.",
  design="each edit is interpreted per element type; resizes, element and key moves are extracted in order, loops in closed form (iteration k writes place t(k) from place "
         "s(k)), and the composition must equal the specified map with sources read before they are overwritten. In storage the memmove of each type must move "
         "(size-1) elements by exactly one element. checks/c11.py; about 2 s. Where a loop of insert or remove is not a plain counted one, its summary is followed for sizes up to 8: a wrong order there is a violation, anything else stays undecided.")

P(id="C14", title="A copy is another array with the same type, shape and elements",
  statement="copy() of a value that holds an array gives a value with an array of its own: same element type and size and, unless only storage is asked for, "
            "element by element what the original holds. The copy of a view is a view of a copy of the whole underlying array with the same shape, strides "
            "and offset. Copying a single value or an undefined one gives an equal value; copying a reference to an array copies the array. An array made "
            "from characters, ints or complex numbers has that type and length and holds them in order; one made from a size and a type has that size and type.",
  quant="all element types, sizes and shapes; plain arrays, views, references, single values; full copies and storage only",
  why="the tests copy one float array; a wrong byte count or loop bound for any other element type, or a shared array, needs its own case to show",
  files=["lube/heap.cpp", "lube/view.cpp", "lube/var.cpp"],
  mech=[("array copy", "Heap::Heap(const IHeap&, bool), Heap::copy"), ("view copy", "View::View(const IHeap&, bool)"), ("value copy", "var::copy"),
        ("construction from data", "Heap::Heap(int, const T*), Heap::append")],
  technique="abstract interpretation with closed forms of counted loops",
  design="each constructor is interpreted once per element type and for both settings of the storage-only flag; byte counts of block copies and closed forms of "
         "element loops are compared with size times element size as formulas, source and destination with the storage of the two objects. checks/c14.py; about 1.5 s.")

P(id="C13", title="Equality and order of values agree",
  statement="Two values are equal exactly if they have the same type and size and equal content, two maps if they also have the same keys; a map never equals an "
            "array. Of two values that are not equal exactly one is less than the other, so that a search finds what was put in order: values of different types are "
            "ordered by type, real values by size, complex values by magnitude and then consistently among those of the same magnitude, text by its bytes, arrays "
            "element by element with a shorter one before its extensions, maps by key and value; an undefined value comes before any array. ==, >, <= and >= "
            "are what these imply. (NaN is outside the claim.)",
  quant="all pairs of types, values, arrays, maps and views",
  why="antisymmetry and totality are statements about all pairs of values; tests compare a handful of equal types",
  files=["lube/var.cpp", "lube/var.h", "lube/heap.cpp"],
  mech=[("equality", "var::operator!=, Heap::neq"), ("order", "var::operator<, Heap::lt"), ("derived comparisons", "var.h operators")],
  technique="abstract interpretation with decision tables over the relations of the operands; loop coverage in closed form",
  design="each comparison is interpreted per type; every outcome's path condition and result are tabulated over all relations (less, equal, greater) the operands' "
         "values, magnitudes, parts, sizes and types can have, and the table compared with the definition, for totality and for transitivity of the order of types. "
         "For arrays the loop must cover all elements (keys too), go on exactly where the pair of elements does not decide, and give the right answer where it does. "
         "checks/c13.py; about 2 s.")

P(id="C12", title="A map holds every key once, in order, and finds it",
  statement="Indexing a map by a key refers to the value of that key, and makes a new pair for it, at its place in the order, exactly if the key is not there; indexing "
            "an undefined value by a key makes it a map; indexing by an undefined key changes nothing. at(key) and index(key) give the pair of that key, or nothing (-1) if "
            "it is not there, and never change the map. The search finds, in any map or any array in order, the first place whose key or element is not less than "
            "what is looked for, so keys stay in order and no key is held twice. sort() puts every element once, each at the place the search gives among those already sorted.",
  quant="all maps, keys, sizes and element orders",
  why="a search that is off by one at one size, or tests the wrong end, finds most keys; correctness for every size needs the loop's invariant, not samples",
  files=["lube/var.cpp", "lube/heap.cpp"],
  mech=[("indexing by key", "var::operator[](var)"), ("lookup", "var::at(var), var::index(var)"), ("search", "var::binary"), ("sort", "var::sort")],
  technique="abstract interpretation with loop invariants of the search bounds and decision tables over the key comparison",
  design="every path of indexing and lookup is tabulated over the relation of the key found with the key looked for and the place found with the size. The search loop's "
         "bounds are tracked as induction values: from one generic round it is shown that the place probed lies within the bounds and that the bounds keep every element "
         "before them less and every element after them not less, that they shrink and that the loop ends only when they meet. checks/c12.py; about 1 s.")

P(id="C15", title="A Fourier transform computes in the type, size and direction it was made for",
  statement="A DFT object made for N elements of type T (float, double, cfloat, cdouble; float unless told otherwise) holds one descriptor of the transform library, of T's "
            "precision and domain and of size N, out of place and committed; making one for any other element type throws. Applied to arrays it transforms each vector of the "
            "input's last dimension once, forward for DFT and backward for IDFT, from its place in the input to its place in the output; the inverse, and only it, is divided by N. "
            "The other side of a real transform of N elements has N/2+1 complex elements; an allocated result has the input's shape but for that extent, and the output's type. "
            "An input or output of another type or size, and an array given as its own output, are refused by an exception. An error the library reports throws. The descriptor is "
            "released exactly once, by the destructor or when the constructor fails.",
  quant="all sizes, element types, directions and shapes, and every failure of a library call",
  why="the library works through untyped pointers: a descriptor of another type or size reads and writes beyond the arrays, which a test of one size need not notice, and library failures do not occur in tests",
  files=["lube/dft-mkl.cpp", "lube/dft.h"],
  mech=[("plan", "DFTBase::DFTBase"), ("application", "DFTBase::scalar, DFTBase::vector, DFTBase::alloc"), ("release", "DFTBase::~DFTBase, DFTImpl")],
  technique="abstract interpretation of constructor, methods and destructor in sequence, library calls primitive; typestate of the descriptor on every path including exceptions",
  design="the constructor is interpreted for each type and direction with exceptional exits; each normal exit is the entry state of alloc, scalar, vector and the destructor. "
         "The sequence of library calls, their arguments and the checks of their status are compared with the rule on every path; operands of every other type and of "
         "another size must lead to an exception before anything is computed. checks/c15.py; about 1.5 s. The accuracy of the library's results is not claimed.")

P(id="C16", title="What is acquired from the system or a library is released exactly once",
  statement="A sound file, pipe, dynamic library, XML parser, curl handle or block of memory that a function obtains is, on every path out of it, exceptions included, released "
            "exactly once by the function that belongs to it, kept by the object, or handed to the caller; it is used only between being obtained successfully and being "
            "released. The destructor of a class that keeps one releases it once, and copying, moving or assigning such an object never leaves two objects with the same one. "
            "A module records every object its factory makes, deletes each of them, and closes the library only after that.",
  quant="all paths, including those where any operation that may throw does, and every failure of an acquisition",
  why="leaks and double releases happen on failure paths that tests do not take, and tests do not count handles",
  files=["lube/sndfile.cpp", "lube/module.cpp", "lube/xmlfile.cpp", "lube/gnuplot.cpp", "lube/curl.cpp", "lube/string.cpp"],
  mech=[("sound files", "sndfile.cpp read, write"), ("modules", "module.cpp module(), ~module, create"), ("XML parser", "xmlfile.cpp XML(), ~XML"),
        ("pipe", "gnuplot.cpp GNUPlot"), ("transfers", "curl.cpp Easy"), ("factories", "factory in each module")],
  technique="ownership/typestate analysis of handles over all paths with exceptional edges; compile-time probes of copyability",
  note="Exceptions for want of memory, from standard streams and from constructors of values are not considered. gnuplot, curl and sndfile are analysed whether or not their library is linked.",
  design="every function that reaches an acquisition is interpreted with exceptional edges at each call that may throw (callbacks of C libraries included). Each handle's life on each path is "
         "followed: tests of its validity, uses, releases, what holds it at the end. Fields that hold one are then checked in the destructor and in probes that copy, move and assign "
         "the class where that compiles. checks/c16.py; about 10 s.")

P(id="C17", title="A failure reported by the system or a library does not pass unnoticed",
  statement="When a file cannot be opened, read or written, a library not loaded, a symbol not found, a document not parsed or not complete, a transfer not made, a pipe not opened or "
            "written, or fewer frames read or written than asked for, the function concerned throws (or reports it as its result): it never returns normally as if it had worked. "
            "The end of a file is told from a read error; a file is written only when closing or flushing it has succeeded; an XML document is accepted only when the parser has been told where it ends. what() of an error gives what the error was made from.",
  quant="all paths that return normally, for every outcome of the library and system calls on them",
  why="such failures do not occur in tests, and an unchecked one yields empty or truncated results that look valid",
  files=["lube/txtfile.cpp", "lube/inifile.cpp", "lube/xmlfile.cpp", "lube/gedfile.cpp", "lube/sndfile.cpp", "lube/graph.cpp", "lube/gnuplot.cpp", "lube/curl.cpp", "lube/module.cpp"],
  mech=[("text, ini, XML, GEDCOM, sound and graph files", "read, write, loadFile, writeGraphViz"), ("libraries", "module::module"), ("processes and transfers", "GNUPlot::puts, Easy::perform")],
  technique="dataflow over path conditions: each status-returning call must be known to have worked on every normal return; stream typestate with versions",
  note="The status of closing or of setting options is not covered.",
  design="every function that opens, reads or writes a stream or calls a library function with a status is interpreted on all paths; for each normal return the conditions collected "
         "on the path must imply that each such call worked (status compared with what the function's contract says, stream predicates at a version at or after the operation). checks/c17.py; about 10 s.")

P(id="C18", title="The text functions of var return the text they are documented to return",
  statement="toupper and tolower map exactly the letters a-z / A-Z of every character and nothing else, in place or into a result of the same length; strip removes space (as isspace has it) at both "
            "ends and only there, also from text that is all space; applied to an array each works on every element, and the functors called with one argument leave it as it is. getline keeps "
            "every character up to the end of the line, however long, and leaves nil only at the end of the stream. split(separator) returns the texts between separators, none lost, "
            "empty ones included, at most as many as asked for with the rest in the last, and refuses an empty separator; split() returns the words between runs of space. join adds every element once, in "
            "order, with the separator between each two. len() is the number of UTF-8 characters (1 to 4 bytes by the first byte, continuation bytes 10xxxxxx), or -1 where the text is not UTF-8.",
  quant="every text of every length, all 256 bytes, every separator and limit, text shared or not, results in place or not",
  why="the tests use a handful of short ASCII texts; lengths at which buffers grow, bytes above 127, text that is all space and limits are not sampled",
  files=["lube/string.cpp", "lube/utf8.cpp", "lube/string.h"],
  mech=[("case and space", "string.cpp ToUpper, ToLower, Strip, StringFunctor"), ("lines", "string.cpp var::getline"), ("split and join", "string.cpp var::split, var::join"), ("UTF-8", "utf8.cpp var::len")],
  technique="abstract interpretation with closed forms of loops; decisions on characters tabulated over all 256 bytes",
  note="The regular expression functions (search, match, replace) are not covered, nor the number of pieces of split() with a limit of one.",
  design="each function is interpreted on all paths. Loops over characters are brought to closed form (first index, step, end), so what is read and written is known for every length; the conditions on a "
         "character and the value written are evaluated for each of the 256 bytes and compared with the letters, isspace or the ranges of UTF-8. For getline an inductive argument shows that there is room for each "
         "character stored. For split the piece, its start and what follows are compared symbolically with the position of the separator found. checks/c18.py; about 6 s.")

P(id="C19", title="JSON written is what the value holds; JSON read is what the text says",
  statement="operator<< writes a single number by value in its own type and nil as null; a text as its characters in order between double quotes, the quote and backslash escaped, nothing else added or left out; "
            "an array or map with every element once, in order, between the brackets of its kind, a comma between neighbours only and a colon between key and value; a view of any number of dimensions with every element once in "
            "row-major order. operator>> passes over white space (at least space, tab, newline and carriage return) between values; reads back each of the 256 characters of a text as it was written and ends a text only at an unescaped "
            "quote; keeps every element of an array and every value of an object, under the key just read, exactly once; reads true, false and null as 1, 0 and nil and any other word as a number only if all of "
            "it is one; and takes nothing from the stream beyond the value.",
  quant="every value and kind of value, array length, number of dimensions, key, all 256 characters; every text",
  why="the tests compare a few fixed outputs and read one small file; characters that need escapes, tensors of four dimensions, numbers followed by tabs and nil elements are not in them",
  files=["lube/json.cpp"],
  mech=[("writer", "json.cpp operator<<, JSON::format, formatArray, formatView"), ("reader", "json.cpp operator>>, JSON::doValue, doObject, doArray, doString, doRaw, toNumber")],
  technique="abstract interpretation of the writer into an emission summary and of the reader over a stream of symbolic characters with positions; decision tables over all 256 characters",
  note="How digits of numbers are formatted (iostream precision) is not covered, nor complex elements of views; leniencies of the reader (missing commas) are not judged.",
  design="operator<< is interpreted whole for each kind of value; the result is a summary of texts, characters and elements under loops with guards. The guards compare the position with the size, so the summary is instantiated at the sizes at "
         "which they can differ (0 to 12 elements, 1 to 4 dimensions, elements of each kind), and the sequence of texts and elements compared with the grammar, ignoring white space outside texts. operator>> is interpreted whole over characters "
         "chr(stream, position), the position being a value carried through loops; for every iteration the conditions on its characters and what it keeps are tabulated over all 256 characters and end of input, and compared with what the writer "
         "writes for each character. Reading of a nested value is one event at a known position. checks/c19.py, lib/fmtm.py; about 4 s.")

P(id="C20", title="An XML document written is the tree, and the tree read is the document",
  statement="XMLFile::write writes every element with its name, each of its attributes and each item of its data exactly once and in order, nested as they are in the tree, with the characters that are markup in attribute values and texts "
            "escaped, so that reading the document back gives the same tree; a value that is not an element is refused. Reading keeps every element once, as an item of the data of the element it is in (the first is the document), with its name, "
            "every attribute with its value, and each piece of text in full other than line ends; an end tag ends exactly one element, and every line of the file with its line end, and the end of the document, is given to the parser.",
  quant="every tree of elements, attribute list, text and character of it; every document",
  why="the test writes back one document that has no character to escape in an attribute and no empty attribute list",
  files=["lube/xmlfile.cpp"],
  mech=[("writer", "xmlfile.cpp XMLFile::write"), ("reader", "xmlfile.cpp XMLFile::read and the functions given to XML_SetElementHandler and XML_SetCharacterDataHandler")],
  technique="abstract interpretation of the writer into an emission summary instantiated on tree shapes; effect analysis of the parser callbacks on all their paths",
  note="Line ends inside texts are dropped by design; comments and processing instructions are not kept. Well-formedness of names is the caller's.",
  design="XMLFile::write is interpreted whole; its summary (texts, characters, attributes, nested elements under loops with guards) is instantiated for elements of each shape: without attributes, with none, one, several, with every character "
         "in texts and attribute values, and data of texts and elements in each order; the token sequence is read with the rules of XML and compared with the tree. The callbacks are found from the calls that register them; on every path of each "
         "what is stored in the element, and the pushes and pops of the stack, are compared with the rule. The loop that feeds the parser must give it the line read and its end for each line, and the final call. checks/c20.py; about 2 s.")


P(id="C21", title="A stream on a text reads its characters in order and writes at its end",
  statement="A varstream reads every character of its text once and in order, each of the 256 values as itself, then end of file, and never a place outside the text; looking ahead does not move; a character can be put back only where the same one was read; "
            "a position from 0 to the size can be sought, any other fails and leaves the position. Every character written, of all 256, is added once at the end of the text, reading leaves the text unchanged, and the text is the array the stream was made with (shared, not copied) or empty.",
  quant="every text, position, character and order of reading, writing and seeking", why="the tests write a few words and read one number",
  files=["lube/stream.cpp", "lube/var.h"],
  mech=[("buffer", "stream.cpp varbuf::overflow, underflow, uflow, pbackfail, seekpos"), ("stream", "stream.cpp varbuf::varbuf, varstream::varstream")],
  technique="abstract interpretation of the overriding functions of the stream buffer into path summaries, compared with the std::streambuf protocol case by case",
  note="Formatting and parsing of numbers are the iostream library's.",
  design="The functions std::streambuf calls are found in the virtual table of varbuf and interpreted on all their paths; the summary of a path (conditions on size, position and character; result; position after; changes to the text) is "
         "instantiated for the sizes and positions at which the conditions can differ and for each of 256 characters, exactly one path must apply, and it is compared with the protocol. A function that is no longer overridden is a violation where the "
         "library's default needs a buffer. checks/c21.py; about 1 s.")

P(id="C07", title="What a var says of itself is what it holds",
  statement="size(), type(), atype(), defined(), heap() and view() answer from the content: nil is undefined, has size 0 and no array; a value is defined, has "
            "size 1 and its own type; an array answers for itself; a reference answers for the element it refers to. atype<T>() holds exactly for the types that "
            "are T. is() holds exactly when two vars name the same storage. str() is the text of the array, wherever it is held. typeStr() names the type. "
            "No public operation of var uses an array through a var that holds none: it converts, answers or throws instead.",
  quant="every public operation of var, for each operand being nil, a value of each type, an array or a reference to an element",
  why="everything else in the library asks these questions first; a wrong answer for one kind of content, or one operation that takes nil or a scalar for an array, "
      "crashes or misleads only the caller that has that combination, which the tests do not",
  files=["lube/var.cpp", "lube/var.h", "lube/heap.cpp"],
  mech=[("the questions", "var.cpp size, type, atype, defined, heap, view, is, str, typeStr, atypeStr"), ("through references", "heap.cpp Heap::deref*"),
        ("operations", "every public method of var")],
  technique="abstract interpretation over the kinds of content of every operand; a null-array (typestate) analysis of every public operation",
  note="Raw access (ptr<T>, data) is unchecked by design. insert() and operator[](int) on nil and scalars exceed the bounds of the path partition and are left undecided.",
  design="each query is interpreted with the operand in each kind of content and the answer compared with the definition in terms of what the array or the referred element "
         "says; each public method is interpreted for every combination of kinds of its operands and no path may call a method of, or read a field of, an array that is "
         "null or the bits of a scalar. What the array side of a reference says is part of C02. checks/c07.py; about 15 s.")

P(id="C22", title="A var made from C++ data holds exactly that data",
  statement="A var made from a list of texts, a list of vars, a size and a pointer, a text, a complex number, a size and a value, or a shape and a value holds "
            "exactly those elements, in order, whatever they are: an undefined or empty element counts like any other. append() adds exactly the given number of "
            "elements, or the characters of the text. range(from, to, step) holds every value from the first that is not above the bound, irange() every value "
            "below it, in the type of what was given; neither changes its arguments, even where they are references to elements.",
  quant="every constructor of var from data, append(), range() and irange(), for every length, element and step",
  why="the tests use short literal lists without empty, undefined or last-element surprises, steps of one and whole numbers",
  files=["lube/var.cpp", "lube/var.h", "lube/heap.cpp", "lube/heap.h"],
  mech=[("lists", "var.cpp var(const char* const*), var(int, const char* const*), var(initializer_list<var>)"), ("filled arrays", "var.cpp var(int, var), var(initializer_list<int>, var)"),
        ("arrays from pointers", "var.cpp var(int, const char*), var(int, const int*), append; heap.cpp Heap(int, T*), Heap::append"), ("ranges", "var.cpp range, irange")],
  technique="abstract interpretation; loop summaries instantiated at the sizes and contents at which their guards can differ",
  note="push() refuses elements that do not fit together. A null pointer in a counted list of texts is outside the contract. Ranges with a step that is not positive do not end and are not part of the claim.",
  design="each constructor is interpreted once, symbolically; the summary of its loops (induction variables, guards, what an iteration pushes or sets) is then followed for lists of 0 to 4 "
         "elements, empty and non-empty, undefined, scalar and array, and the elements put into the var compared with the list. Heap::append is followed byte by byte in the same way. "
         "checks/c22.py; about 1 s.")

P(id="C23", title="Settings, options and lines are found as they were set, given or read",
  statement="config(entry) gives what was last set or read under that entry of the chosen section, whatever its position there; if the section or the entry does not exist it "
            "gives nil, and config(entry, default) the default. configSet() sets the entry of the chosen section and nothing else. configFile() sets every entry of every section "
            "of the file and keeps the others. An ini file is read line by line: blank lines and lines that start with ; or # are ignored, [name] starts a section, key = value "
            "(or key : value) sets a stripped key to a stripped value, split once, and anything else is refused. An Option holds its default until parse() stores its argument, or 1; "
            "args() are the words after the options. A text read is the array of its lines, in order, empty ones included; a text or settings file written has one line per element and nothing else.",
  quant="every section, entry, default, file, line, option and argument list",
  why="the tests read one ini file and one text and set no entry twice, first, or to a value that contains a separator",
  files=["lube/config.cpp", "lube/config.h", "lube/inifile.cpp", "lube/txtfile.cpp"],
  mech=[("lookup", "config.cpp Config::config, Config::configSet, Config::configSection"), ("merge", "config.cpp Config::configFile"), ("options", "config.cpp Option::operator(), Option::parse, Option::args"),
        ("lines", "inifile.cpp inifile::read; txtfile.cpp txtfile::read, txtfile::write")],
  technique="abstract interpretation; decision tables over the guards of every path; loop summaries instantiated for small files",
  note="getopt() itself is trusted. An entry set to nil exists: config<T>() casts it. inifile::write() writes its elements, not settings (see the list of peculiarities).",
  design="Each function is interpreted on all paths. For every combination of the facts its guards look at (section there or not, entry missing, first or later, default given or not, kind of the "
         "line after stripping, option with or without an argument) the paths whose guards hold are picked and what they return or store is compared with the definition; the fields of an "
         "Option are identified by the functions that set them. The merge of a file is followed for files of up to three sections, on top of nothing and of earlier settings. checks/c23.py; about 8 s.")

P(id="C24", title="What goes in and out through a module is all of it, in order",
  statement="Reading a sound file gives every frame of it, as floats, one row per channel (of one channel, an array of its samples), and keeps its rate; writing an array writes every sample, frame by frame, with as many channels as the array has rows and at the rate kept. "
            "Getting a page asks for the page named and returns the texts received, each in full and one after the other. Every element given to gnuplot is written once and in order: a command on a line of its own, a vector one number per line, a matrix one column per line, data ended by a line e; the file named is given as the output. "
            "A listing has every entry the system gives exactly once under its path, with parent, stem and extension when they are asked for and only then; rdir goes through what is in directories too, and lists a file as itself; a tree keeps names, lists the directories in it in turn and does not follow links; a path that is not there is refused. "
            "A module loads the library lib<name>.so and makes instances with its factory function, each kept once and returned. "
            "A graph has one more vertex for each added, whose number is returned, and an edge from the first to the second vertex for each added; what is written is that graph.",
  quant="every number of frames and channels, list of commands and data, directory, page received in any number of parts, module name, graph",
  why="the tests read one sound file with one channel and list directories for display only; nothing is compared with what was there, and gnuplot and curl are not run",
  files=["lube/sndfile.cpp", "lube/curl.cpp", "lube/gnuplot.cpp", "lube/path.cpp", "lube/module.cpp", "lube/graph.cpp"],
  mech=[("graphs", "Graph::addVertex, addEdge, writeGraphViz"), ("sound files", "sndfile::read, write"), ("pages", "Easy, WriteCallback"), ("plots", "gnuplot::write, puts"), ("directories", "Path::dir, rdir, tree"), ("modules", "module::module, create")],
  technique="abstract interpretation: path summaries of the calls made to the library behind each module, instantiated at the sizes at which paths differ, with provenance of keys and values",
  design="each module's functions are interpreted on all paths with the library's functions as events. Sound: what the library is asked for (frames, size and type of the array, shape of the view transposed, structure given to sf_open) is evaluated at sizes with one and several channels. "
         "Plots: the text of each path is instantiated for lists of commands, vectors and matrices of every type and compared line by line with what gnuplot takes. Directories: one arbitrary iteration is followed from the iterator to the key and the parts kept; increments, questions asked of the entry, recursion and the kind of iterator are compared with what is asked for. "
         "Pages: options set before the transfer, the callback's count, length and target, and what is returned. Modules: the name put together, the symbol looked up and what is done with the instance made. Graphs: the one addition or output of each function, with which vertices and of which graph. Anything the summary does not determine is undecided.",
)

N(id="C30", title="Transforms, linear algebra and roots are numerically accurate",
  statement="dft applied forwards and then backwards gives back its operand; inv(a) mul a is the identity; poly(roots(p)) is p; each to the working precision of the element type.",
  quant="every well-conditioned operand", why="the tests look at a few operands",
  files=["lube/dft-mkl.cpp", "lube/math.cpp", "lube/clapack.cpp"], mech=[("external", "the calls of DftiCompute*, sgeev and gemm")],
  reason="The values are computed inside external libraries in floating point; which calls are made, with which operands, types and sizes is decided under C05, C06 and C15, but no static argument over this source bounds the rounding error.")

N(id="C31", title="Sorting terminates with the elements in order",
  statement="sort() of any array leaves a permutation of its elements in ascending order; iamax and the lookups of an element by value find it if it is there.",
  quant="every array of every type", why="the tests sort two arrays",
  files=["lube/math.cpp", "lube/var.h"], mech=[("external", "Sort: std::sort over the elements")],
  reason="The permutation is made inside std::sort; that it is given all the elements in their own type is decided under C06, the order under C13; the loop over data-dependent values inside the standard library is not in this source.")

N(id="C32", title="A regular expression matches what its syntax says",
  statement="search() and match() are true for exactly the texts their regular expression describes, and replace() changes exactly those parts.",
  quant="every expression and text", why="the tests match three expressions",
  files=["lube/regex.h", "lube/string.cpp"], mech=[("external", "std::regex")],
  reason="What an expression matches is decided inside std::regex at run time from the text of the expression; the source here only hands both over.")

N(id="C33", title="Numbers written and read back are the same numbers",
  statement="A double written by operator<<, JSON or a text file and read back is the same double.",
  quant="every number", why="tests use numbers of few digits",
  files=["lube/var.cpp", "lube/json.cpp"], mech=[("external", "iostream formatting")],
  reason="Does not hold by design (six digits of iostream), and the digits are made inside the standard library from run-time values.")

N(id="C34", title="What is fetched from a URL is what the server sent",
  statement="curl's output is the body of the reply, whatever its size and the sizes of the pieces it arrives in; a failed transfer throws.",
  quant="every reply and split of it into pieces", why="there is no server in the tests",
  files=["lube/curl.cpp"], mech=[("external", "curl_easy_perform")],
  reason="Arrival and splitting of data are run-time quantities of libcurl and the network; that the handle is released and its errors noticed is decided under C16 and C17.")

N(id="C35", title="Operations on one array from two threads do not interfere",
  statement="Two threads that each use their own var of a shared array leave its reference count right.",
  quant="every schedule", why="the tests have one thread",
  files=["lube/heap.h", "lube/heap.cpp"], mech=[("count", "IHeap::mRefCount")],
  reason="Not a guarantee of the library: the reference count is a plain int, and nothing in the documentation offers use from several threads.")
