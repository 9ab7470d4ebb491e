import re
F="lube/var.cpp"
f=open("/repo/"+F).read()
def fn(src, head):
    i=src.index(head); j=src.index("\n}\n", i)+3
    return src[i:j]
V=[]
def same(pid,*edits):
    V.append((pid,F,[(F,o,n,0) for o,n in edits],None,None,"same"))
# 0 castValue
same("C02",("""        if (!v.heap())
            return v.get<T>();
        if (!v.atype<T>() || v.size() != 1)
            throw error("var::cast(): Cannot cast an array");
        return v.at(0).get<T>();""","""        if (v.heap())
        {
            if (v.size() == 1 && v.atype<T>())
                return v.at(0).get<T>();
            throw error("var::cast(): Cannot cast an array");
        }
        return v.get<T>();"""))
# 1 PTR
same("C02",("""        if (reference())                                        \\
        {                                                       \\
            var& r = varderef();                                \\
            return (&r != this)                                 \\
                ? r.ptr<T>(iIndex) : mData.hp->ptr##T(~mType);  \\
        }                                                       \\
        return heap() ? heap()->ptr##T(iIndex) : &data<T>();    \\
""","""        if (!reference())                                       \\
        {                                                       \\
            IHeap* h = heap();                                  \\
            if (h)                                              \\
                return h->ptr##T(iIndex);                       \\
            return &data<T>();                                  \\
        }                                                       \\
        var& r = varderef();                                    \\
        if (&r == this)                                         \\
            return mData.hp->ptr##T(~mType);                    \\
        return r.ptr<T>(iIndex);                                \\
"""))
# 2 destructor
same("C01",("""    if (detach() == 0)
    {
        // Some functions, notably shift and unshift, call placement delete.
        // So, the d'tor needs to be robust to multiple calls.
        mData.hp = 0;
        mType = TYPE_ARRAY;
    }""","""    const int left = detach();
    if (left != 0)
        return;

    // Some functions, notably shift and unshift, call placement delete.
    // So, the d'tor needs to be robust to multiple calls.
    mType = TYPE_ARRAY;
    mData.hp = 0;"""))
# 3 copy ctor
same("C01",("    mData = iVar.mData;\n    mType = iVar.mType;\n    attach();\n}","    mType = iVar.mType;\n    mData = iVar.mData;\n    (void)attach();\n}"))
# 4 operator= early returns & helper
s=fn(f,"var& var::operator =(var iVar)")
n=s.replace("""    else if ((mType == TYPE_ARRAY) &&
             mData.hp && mData.hp->copyable(iVar.heap()))
    {
        // Not a reference, but we are a copyable view.
        // This is the broadcastable set(); could use Heap::copy() instead?
        set(*this, iVar, *this);
    }
    else
    {
        // Not a reference.  Record whether the old value was a heap
        // allocation. If so, detach it after attaching the new value.
        IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;
        mData = iVar.mData;""","""    else
    {
        IHeap* tmp = 0;
        if (mType == TYPE_ARRAY)
            tmp = mData.hp;
        if (tmp && tmp->copyable(iVar.heap()))
        {
            set(*this, iVar, *this);
            return *this;
        }
        mData = iVar.mData;"""); assert n!=s
same("C01",(s,n))
# 5 operator= with detach at end
n=s.replace("        if (tmp)\n            detach(tmp);\n        dereference();","        dereference();\n        if (tmp)\n            detach(tmp);"); assert n!=s
same("C01",(s,n))
# 6 move via swap
same("C01",("""    mData = iVar.mData;
    mType = iVar.mType;

    // Set the old one to nil.  ...although doing that via operator=()
    // causes trouble
    iVar.mData.hp = 0;
    iVar.mType = TYPE_ARRAY;""","""    mData.hp = 0;
    mType = TYPE_ARRAY;
    std::swap(mData, iVar.mData);
    std::swap(mType, iVar.mType);"""))
# 7 ctor list
same("C02",("    for (const var* it=begin(iList); it!=end(iList); ++it)\n        push(*it);","    for (const var& v : iList)\n        push(v);"))
# 8 ctor size,var
same("C02",("    *this = iVar;\n    resize(iSize);\n    for (int i=1; i<iSize; i++)\n        at(i) = iVar;","    *this = iVar;\n    resize(iSize);\n    int i = iSize;\n    while (--i > 0)\n        at(i) = iVar;"))
# 9 varderef switch
s=fn(f,"var& var::varderef()")
same("C01",(s,"""var& var::varderef()
{
    IHeap* h = mData.hp;
    int index = -mType-1;
    switch (h->type())
    {
    case TYPE_VAR:
        return *h->ptrvar(index);
    case TYPE_PAIR:
        return h->ptrpair(index)->val;
    default:
        break;
    }
    // Return this on "failure"
    return *this;
}
"""))
# 10 !=
same("C13",("    if (type() != iVar.type())\n        return true;\n    if (size() != iVar.size())\n        return true;\n    switch (type())","    const ind t = type();\n    if ((t != iVar.type()) || (size() != iVar.size()))\n        return true;\n    switch (t)"),
 ("        if (!heap() || !iVar.heap())\n            return heap() != iVar.heap();\n        return heap()->neq(iVar.heap());","    {\n        IHeap* a = heap();\n        IHeap* b = iVar.heap();\n        if (a && b)\n            return a->neq(b);\n        return a != b;\n    }"))
# 11 lessComplex
same("C13",("    if (a != b)\n        return a < b;\n    if (iA.real() != iB.real())\n        return iA.real() < iB.real();\n    return iA.imag() < iB.imag();","    if (a == b)\n    {\n        if (iA.real() == iB.real())\n            return iA.imag() < iB.imag();\n        return iA.real() < iB.real();\n    }\n    return a < b;"))
# 12 <
same("C13",("        if (!heap() || !iVar.heap())\n            return !heap() && iVar.heap();\n        return heap()->lt(iVar.heap());","        if (!iVar.heap())\n            return false;\n        if (!heap())\n            return true;\n        return heap()->lt(iVar.heap());"))
# 13 copy
s=fn(f,"var var::copy(bool iAllocOnly) const")
same("C14",(s,"""var var::copy(bool iAllocOnly) const
{
    var r;
    IHeap* h = heap();
    if (h)
    {
        IHeap* n = 0;
        if (h->view())
            n = new View(*h, iAllocOnly);
        else
            n = new Heap(*h, iAllocOnly);
        r.attach(n);
    }
    else
        r = *this;
    return r;
}
"""))
# 14 size
same("C02",("    if (mType == TYPE_ARRAY)\n        return mData.hp ? mData.hp->size() : 0;\n    return 1;","    if (mType != TYPE_ARRAY)\n        return 1;\n    if (!mData.hp)\n        return 0;\n    return mData.hp->size();"))
# 15 Cast alloc
same("C02",("    var r = T(0);\n    if (iVar.dim() > 1)\n        return libube::view(iVar.shape(), r);\n    return r.resize(iVar.size());","    T zero = 0;\n    var r(zero);\n    if (iVar.dim() <= 1)\n    {\n        r.resize(iVar.size());\n        return r;\n    }\n    return libube::view(iVar.shape(), r);"))
# 16 Cast scalar early
same("C02",("    if (v.type() == iVar.type() && v.atype() == iVar.atype())\n    {\n        if (!iVar.is(oVar))\n            oVar = iVar;\n        return;\n    }","    const bool done = (v.atype() == iVar.atype()) && (v.type() == iVar.type());\n    if (done)\n    {\n        if (iVar.is(oVar))\n            return;\n        oVar = iVar;\n        return;\n    }"))
# 17 operator[int]
same("C08",("    if (iIndex >= size())\n        resize(iIndex+1);\n    array();\n    return reference(iIndex);","    const int need = iIndex + 1;\n    if (size() < need)\n        resize(need);\n    return array().reference(iIndex);"))
# 18 operator[var]
same("C12",("    int index = v.binary(iVar);\n    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )\n        v.insert(iVar, index);\n    return v.reference(index);","    int index = v.binary(iVar);\n    bool found = (index < v.size()) && (v.heap()->key(index) == iVar);\n    if (!found)\n        v.insert(iVar, index);\n    return v.reference(index);"))
# 19 operator()
same("C08",("    int p = iFirst * stride(0);\n    bounds(0, iFirst);\n    for (int i=1; i<dim(); i++)\n    {\n        int d = va_arg(ap, int);\n        bounds(i, d);\n        p += d * stride(i);\n    }\n    va_end(ap);\n    return at(p);","    const int n = dim();\n    int p = 0;\n    int d = iFirst;\n    for (int i=0; i<n; i++)\n    {\n        if (i > 0)\n            d = va_arg(ap, int);\n        bounds(i, d);\n        p += stride(i) * d;\n    }\n    va_end(ap);\n    return at(p);"))
# 20 is
same("C02",("    IHeap* h1 = heap();\n    if (!h1)\n        return false;\n    IHeap* h2 = iVar.heap();\n    if (!h2)\n        return false;\n    if (h1->ptrchar() == h2->ptrchar())\n        return true;\n    return false;","    IHeap* h1 = heap();\n    IHeap* h2 = iVar.heap();\n    return h1 && h2 && (h1->ptrchar() == h2->ptrchar());"))
# 21 at int
same("C08",("    if (!v)\n        throw error(\"var::at(): uninitialised\");\n    if ((iIndex < 0) || (iIndex >= v.size()))\n        throw error(\"var::at(): Index out of bounds\");\n    if (v.type() == TYPE_ARRAY)\n        return v.reference(iIndex);\n    return v;","    if (!v.defined())\n        throw error(\"var::at(): uninitialised\");\n    const int n = v.size();\n    if (iIndex >= 0 && iIndex < n)\n    {\n        if (v.type() != TYPE_ARRAY)\n            return v;\n        return v.reference(iIndex);\n    }\n    throw error(\"var::at(): Index out of bounds\");"))
# 22 at var
same("C12",("    int index = binary(iVar);\n    if ( (index >= size()) || (heap()->key(index) != iVar) )\n        return nil;\n    return reference(index);","    const int index = binary(iVar);\n    const int n = size();\n    if (index < n)\n    {\n        if (heap()->key(index) == iVar)\n            return reference(index);\n    }\n    return nil;"))
# 23 array
same("C01",("        var tmp = v;\n        IHeap* h = new Heap(1, tmp.mType);\n        v.mType = TYPE_ARRAY;\n        v.attach(h);\n        v.at(0) = tmp;","        const var value = v;\n        IHeap* h = new Heap(1, v.mType);\n        v.mType = TYPE_ARRAY;\n        v.attach(h);\n        v.at(0) = value;"))
# 24 resize
s=fn(f,"var& var::resize(int iSize)")
same("C09",(s,"""var& var::resize(int iSize)
{
    if (iSize < 0)
        throw error("var::resize(): Negative size");
    var& v = dereference();
    if (v.heap())
    {
        // It's allocated already
        heap()->resize(iSize);
        return *this;
    }
    if (!v)
    {
        v.attach(new Heap(iSize, v.mType));
        return *this;
    }
    if (iSize == 1)
        return *this;

    // A single value becomes the first of several
    var tmp = v;
    IHeap* h = new Heap(iSize, tmp.mType);
    v.mType = TYPE_ARRAY;
    v.attach(h);
    if (iSize >= 1)
        v.at(0) = tmp;
    return *this;
}
"""))
# 25 attach/detach
same("C01",("    if (iHeap)\n        return iHeap->detach();\n    if ((mType <= TYPE_ARRAY) && mData.hp)\n        return mData.hp->detach();\n    return 0;","    IHeap* h = iHeap;\n    if (!h && (mType <= TYPE_ARRAY))\n        h = mData.hp;\n    return h ? h->detach() : 0;"))
# 26 push
s=fn(f,"var& var::push(var iVar)")
same("C11",(s,"""var& var::push(var iVar)
{
    const bool scalar = (iVar.type() != TYPE_ARRAY);
    if (defined())
    {
        // Already initialised
        if ( (type() != TYPE_ARRAY) && (iVar.type() != type()) )
            throw error("push(): Incompatible types");
    }
    else if (scalar)
    {
        // Uninitialised
        *this = iVar;
        return *this;
    }

    const int n = size();
    (*this)[n] = iVar;
    return *this;
}
"""))
# 27 pop
same("C11",("    var r = at(size()-1);\n    r.dereference();\n    resize(size()-1);\n    return r;","    const int last = size()-1;\n    var r = at(last);\n    r.dereference();\n    resize(last);\n    return r;"))
# 28 insert var/pair merged helper
s=fn(f,"var& var::insert(var iVar, int iIndex)")
n=s.replace("        int n = iVar.size();\n        resize(size()+n);\n        for (int i=size()-1; i>iIndex+n-1; i--)\n            at(i) = at(i-n);\n        for (int i=0; i<n; i++)\n            at(iIndex+i) = iVar[i];","        const int n = iVar.size();\n        const int old = size();\n        resize(old+n);\n        for (int i=old-1; i>=iIndex; i--)\n            at(i+n) = at(i);\n        for (int i=n-1; i>=0; i--)\n            at(iIndex+i) = iVar[i];"); assert n!=s
same("C11",(s,n))
# 29 insert pairs
n=s.replace("        for (int i=size()-1; i>iIndex; i--)\n        {\n            heap()->key(i) = heap()->key(i-1);\n            at(i) = at(i-1);\n        }","        IHeap* h = heap();\n        for (int i=size()-2; i>=iIndex; i--)\n        {\n            at(i+1) = at(i);\n            h->key(i+1) = h->key(i);\n        }"); assert n!=s
same("C12",(s,n))
# 30 insert restructured
n=s.replace("    if (heap() && atype<var>())\n    {","    const bool arr = heap();\n    if (arr && atype<var>())\n    {").replace("    else if (heap() && atype<pair>())","    else if (arr && atype<pair>())"); assert n!=s
same("C11",(s,n))
# 31 remove
same("C11",("    var r = at(iIndex).copy();\n    for (int i=iIndex+1; i<size(); i++)\n    {\n        if (heap() && atype<pair>())\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);\n    return r;","    const int last = size()-1;\n    const bool map = heap() && atype<pair>();\n    var r = at(iIndex).copy();\n    for (int i=iIndex; i<last; i++)\n    {\n        at(i) = at(i+1);\n        if (map)\n            heap()->key(i) = heap()->key(i+1);\n    }\n    resize(last);\n    return r;"))
# 32 sort
same("C11",("        int p = r.binary(at(i));\n        r.insert(at(i), p);","        var v = at(i);\n        r.insert(v, r.binary(v));"))
# 33 index
s=fn(f,"ind var::index(var iVar) const")
same("C12",(s,"""ind var::index(var iVar) const
{
    if (!defined())
        return -1;
    if (atype() == TYPE_PAIR)
    {
        // Pairs are sorted
        int i = binary(iVar);
        if (i >= size())
            return -1;
        return (heap()->key(i) == iVar) ? i : -1;
    }

    // Nothing else is sorted; start at the beginning
    const ind n = size();
    ind i = 0;
    while (i < n && !(at(i) == iVar))
        i++;
    if (i < n)
        return i;
    return -1;
}
"""))
# 34 presize
same("C09",("    int s = size();\n    if (iSize >= s)\n    {\n        resize(iSize);\n        resize(s);\n    }\n    return *this;","    const int s = size();\n    if (iSize < s)\n        return *this;\n    resize(iSize);\n    return resize(s);"))
# 35 heap()
same("C01",("    if (reference())\n        return mData.hp->derefHeap(~mType);\n    return ( (mType == TYPE_ARRAY) && mData.hp ) ? mData.hp : 0;","    if (mType < TYPE_ARRAY)\n        return mData.hp->derefHeap(~mType);\n    if (mType > TYPE_ARRAY)\n        return 0;\n    return mData.hp;"))
# 36 reference
same("C01",("    var v(*this);\n    v.mType = -iIndex-1;\n    return v;","    var r = *this;\n    r.mType = ~ind(iIndex);\n    return r;"))
# 37 dereference inverted
s=fn(f,"var& var::dereference()")
n=s.replace("    var& r = varderef();\n    if (&r != this)\n    {","    var& r = varderef();\n    const bool inside = (&r != this);\n    if (inside)\n    {").replace("        assert(mData.hp);\n        int index = ~mType;\n        ind type = mData.hp->type();\n        IHeap* tmp = mData.hp;\n        mType = type;","        IHeap* tmp = mData.hp;\n        assert(tmp);\n        int index = -(mType+1);\n        const ind type = tmp->type();\n        mType = type;").replace("*mData.hp->ptr","*tmp->ptr"); assert n!=s
same("C01",(s,n))
# 38 binary
same("C12",("    int lo = 0;\n    int hi = size();\n","    int lo = 0;\n    int len = size();\n"),("""    while (lo != hi)
    {
        int pos = (hi-lo)/2 + lo;
        var x = p ? heap()->key(pos) : at(pos);
        if (x < iData)
            lo = pos+1;
        else
            hi = pos;
    }
    return hi;""","""    while (len > 0)
    {
        int half = len/2;
        int pos = lo + half;
        var x = p ? heap()->key(pos) : at(pos);
        if (x < iData)
        {
            lo = pos+1;
            len -= half+1;
        }
        else
            len = half;
    }
    return lo;"""))
# 39 binary with >> and <
same("C12",("    while (lo != hi)\n    {\n        int pos = (hi-lo)/2 + lo;\n        var x = p ? heap()->key(pos) : at(pos);\n        if (x < iData)\n            lo = pos+1;\n        else\n            hi = pos;","    while (lo < hi)\n    {\n        int pos = (lo+hi) >> 1;\n        var x;\n        if (p)\n            x = heap()->key(pos);\n        else\n            x = at(pos);\n        const bool less = x < iData;\n        if (!less)\n            hi = pos;\n        else\n            lo = pos+1;"))
# 40 view helper
same("C10",("    if (!heap())\n        throw error(\"var::view: Input not an array\");\n    var v;\n    v.attach(new View(heap(), iList, iOffset));\n    return v;","    IHeap* h = heap();\n    if (h == 0)\n        throw error(\"var::view: Input not an array\");\n    View* n = new View(h, iList, iOffset);\n    var v;\n    v.attach(n);\n    return v;"))
# 41 view init product
same("C10",("    int s = 1;\n    for (const int* it=begin(iShape); it!=end(iShape); ++it)\n        s *= *it;","    int s = 1;\n    for (int d : iShape)\n        s = d * s;"))
# 42 view(var) tail shared
same("C10",("    int s = 1;\n    for (int i=0; i<iShape.size(); i++)\n        s *= iShape[i].cast<int>();\n    // The array is a new one, even if the type is given by an array\n    var v = iType ? iType.copy() : var(0.0f);\n    v.array();\n    v.resize(s);\n    return v.view(iShape);","    int s = 1;\n    for (int i=iShape.size()-1; i>=0; i--)\n        s *= iShape[i].cast<int>();\n    var v = newArray(iType, s);\n    return v.view(iShape);"),
("/**\n * View initialiser function.  Allocates the underlying array as well as the\n * view.\n */","static var newArray(var iType, int iSize)\n{\n    var v;\n    if (iType)\n        v = iType.copy();\n    else\n        v = 0.0f;\n    v.array();\n    v.resize(iSize);\n    return v;\n}\n\n/**/"))
# 43 subview
same("C10",("    var is = shape();\n    for (int i=dim()-iDim; i>0; --i)\n        is.shift();\n    var iv = view(is, iOffset);\n    return iv;","    const int n = dim();\n    var is;\n    for (int i=n-iDim; i<n; i++)\n        is.push(shape(i));\n    return view(is, iOffset);"))
# 44 subview while
same("C10",("    for (int i=dim()-iDim; i>0; --i)\n        is.shift();\n    var iv = view(is, iOffset);\n    return iv;","    int drop = dim()-iDim;\n    while (drop-- > 0)\n        is.shift();\n    return view(is, iOffset);"))
# 45 shape(int)
same("C10",("    if (iDim < 0)\n        iDim = dim() + iDim;\n    if (view())\n        return heap()->shape(iDim);\n    if (iDim > 0)\n        throw error(\"var::shape(): dimension too large\");\n    return size();","    const int d = (iDim < 0) ? iDim + dim() : iDim;\n    if (!view())\n    {\n        if (d > 0)\n            throw error(\"var::shape(): dimension too large\");\n        return size();\n    }\n    return heap()->shape(d);"))
# 46 bounds
same("C08",("    int d = shape(iDim);\n    if (iIndex < 0 || iIndex >= d)\n    {\n        varstream s","    const int d = shape(iDim);\n    const bool inside = (iIndex >= 0) && (iIndex < d);\n    if (inside)\n        return;\n    {\n        varstream s"))
# 47 shift/unshift
same("C11",("    if (!heap())\n        array();\n\n    // It may be an element of this array, which is about to move\n    iVar.dereference();\n    heap()->unshift(iVar);\n    return *this;","    // It may be an element of this array, which is about to move\n    iVar.dereference();\n    if (!heap())\n        array();\n    IHeap* h = heap();\n    h->unshift(iVar);\n    return *this;"))
# 48 irange
same("C11",("    var r;\n    while (iLo < iHi)\n    {\n        r.push(iLo);\n        iLo += iStep;\n    }\n    return r;","    var r;\n    for (; iLo < iHi; iLo += iStep)\n        r.push(iLo);\n    return r;"))
# 49 type/atype
same("C02",("    if (!defined())\n        throw error(\"var::atype(): Undefined\");\n    if (reference())\n        return mData.hp->derefAType(~mType);\n    if (mType == TYPE_ARRAY)\n        return mData.hp->type();\n    return mType;","    if (!defined())\n        throw error(\"var::atype(): Undefined\");\n    if (mType > TYPE_ARRAY)\n        return mType;\n    return reference() ? mData.hp->derefAType(~mType) : mData.hp->type();"))

del V[5]   # swapping detach and dereference is another order when dereference throws
