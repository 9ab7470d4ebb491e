import re
F="lube/func.cpp"; M="lube/math.cpp"; H="lube/math.h"
f=open("/repo/"+F).read(); m=open("/repo/"+M).read()
def fn(src, head):
    "text of the function beginning with head"
    i=src.index(head); j=src.index("\n}\n", i)+3
    return src[i:j]
V=[]
def same(pid,file,*edits):
    V.append((pid,file,[(file,o,n,0) for o,n in edits],None,None,"same"))
# 0 unary broadcast accumulates
same("C04",F,("""    for (int i=0; i<nOps; i++)
        vector(iVar, stepI*i, oVar, stepO*i);""","""    int posI = 0, posO = 0;
    for (int i=0; i<nOps; i++)
    {
        vector(iVar, posI, oVar, posO);
        posI += stepI;
        posO += stepO;
    }"""))
# 1 helper for the step
same("C04",F,("""/**
 * Unary broadcaster""","""/** Distance between sub-arrays of the given dimension */
static int stepOf(const var& iVar, int iDim)
{
    int dim = iVar.dim();
    if (dim > iDim)
        return iVar.stride(dim-iDim-1);
    return iVar.size();
}

/**
 * Unary broadcaster"""),
("    int dimO = oVar.dim();\n    int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();\n    int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();\n","    int stepI = stepOf(iVar, mDim);\n    int stepO = stepOf(oVar, mDim);\n"),
("    int dimO = oVar.dim();\n    int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();\n    int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();\n","    int step1 = stepOf(iVar1, dim2);\n    int stepO = stepOf(oVar, dim2);\n"))
# 2 while loop and hoisted size
same("C04",F,("""        for (int i=0; i<iVar.size(); i++)
        {
            var ref = oVar.at(i);
            scalar(iVar.at(i), ref);
        }
        return;""","""        int n = iVar.size();
        int i = 0;
        while (i < n)
        {
            var elem = iVar.at(i);
            var ref = oVar.at(i);
            scalar(elem, ref);
            ++i;
        }
        return;"""))
# 3 delegating
same("C04",F,("""    var v = alloc(iVar1, iVar2);
    scalar(iVar1, iVar2, v);
    return v;""","""    var v = alloc(iVar1, iVar2);
    return (*this)(iVar1, iVar2, v);"""))
# 4 conform with hoist
same("C04",F,("""    for (int i=1; i<=iVar2.dim(); i++)
        if (iVar1.shape(-i) != iVar2.shape(-i))
            throw error("var::broadcast: dimension mismatch");""","""    const int dim2 = iVar2.dim();
    for (int i=-1; i>=-dim2; i--)
    {
        const int s1 = iVar1.shape(i);
        const int s2 = iVar2.shape(i);
        if (s1 == s2)
            continue;
        throw error("var::broadcast: dimension mismatch");
    }"""))
# 5 checks reordered in arithmetic broadcast
same("C04",F,("""    if (dim2 > dim1)
        throw error("var::broadcast: input dimension too large");
    if (iVar1.atype() != iVar2.atype())
        throw error("var::broadcast: types must match (for now)");
    conform(iVar1, iVar2);""","""    if (iVar1.atype() != iVar2.atype())
        throw error("var::broadcast: types must match (for now)");
    if (dim1 < dim2)
        throw error("var::broadcast: input dimension too large");
    conform(iVar1, iVar2);"""))
# 6 case extraction: scalar operand
same("C04",F,("""    if ((dim2 == 1) && (iVar2.size() == 1))
    {""","""    bool single = (iVar2.size() == 1) && (dim2 == 1);
    if (single)
    {"""),("            var tmp = oVar.at(i);\n            scalar(iVar1.at(i), iVar2, tmp);","            var o = oVar.at(i);\n            const var a = iVar1.at(i);\n            scalar(a, iVar2, o);"))
# 7 Nary: inner loop helper
same("C04",F,("""            int dim = iVar[j].dim();
            int step = cdim > 0 ? iVar[j].stride(cdim-1) : 0;
            // Don't take a view of a single value
            iv.push(
                dim == cdim ? iVar[j][i] : iVar[j].subview(dim-cdim, step*i)
            );""","""            var v = iVar[j];
            int dim = v.dim();
            if (dim == cdim)
            {
                iv.push(v[i]);
                continue;
            }
            int step = 0;
            if (cdim > 0)
                step = v.stride(cdim-1);
            iv.push(v.subview(dim-cdim, i*step));"""))
# 8 Binary default vector
same("C04",F,("""    var ov =
        (dimO == cdim) ?  oVar[iOffsetO] :  oVar.subview(dimO-cdim, iOffsetO);
    vector(iv1, iv2, ov);""","""    if (dimO == cdim)
    {
        var ov = oVar[iOffsetO];
        vector(iv1, iv2, ov);
    }
    else
    {
        var ov = oVar.subview(dimO-cdim, iOffsetO);
        vector(iv1, iv2, ov);
    }"""))
# 9 BinaryFunctor::broadcast helper for shapes
same("C04",F,("""/**
 * Binary broadcaster""","""static bool sameShape(const var& iA, const var& iB)
{
    if (iA.dim() != iB.dim())
        return false;
    int i = iA.dim();
    while (i-- > 0)
        if (iA.shape(i) != iB.shape(i))
            return false;
    return true;
}

/**
 * Binary broadcaster"""),("""    if (iVar2.dim() != dim1)
        throw error("var::broadcast: dimension mismatch");
    for (int i=0; i<dim1; i++)
        if (iVar1.shape(i) != iVar2.shape(i))
            throw error("var::broadcast: dimension mismatch");
""","""    if (!sameShape(iVar1, iVar2))
        throw error("var::broadcast: dimension mismatch");
"""))
# 10 template in Add::scalar
def tmpl(op,name):
    s=fn(m,"void %s::scalar("%name); n=s
    n=re.sub(r"\*oVar\.ptr<(\w+)>\(\) = iVar1\.get<\w+>\(\) \%s iVar2\.cast<\w+>\(\);"%op, r"apply%s<\1>(iVar1, iVar2, oVar);"%name, n)
    assert n!=s
    return (s,"template<class T>\nstatic void apply%s(const var& iA, const var& iB, var& oVar)\n{\n    T a = iA.get<T>();\n    T b = iB.cast<T>();\n    *oVar.ptr<T>() = a %s b;\n}\n\n"%(name,op)+n)
for op,name in (("+","Add"),("-","Sub"),("*","Mul"),("/","Div")):
    same("C03",M,tmpl(op,name))
# 14 helper for the copy in Add::vector
s=fn(m,"void Add::vector("); n=re.sub(r"if \(!inPlace\)\s*blas::copy\(\s*size,\s*iVar1\.ptr<(\w+)>\(iOffset1\),\s*oVar\.ptr<\w+>\(iOffsetO\)\s*\);", r"place<\1>(size, iVar1, iOffset1, oVar, iOffsetO);", s); assert n!=s
same("C03",M,(s,"""template<class T>
static void place(int iSize, var& iVar, ind iOffset, var& oVar, ind iOffsetO)
{
    if (iVar.is(oVar))
        return;
    blas::copy(iSize, iVar.ptr<T>(iOffset), oVar.ptr<T>(iOffsetO));
}

"""+n.replace("    bool inPlace = iVar1.is(oVar);\n","")))
# 15 hoisted pointers
n=re.sub(r"if \(!inPlace\)\s*blas::copy\(\s*size,\s*iVar1\.ptr<(\w+)>\(iOffset1\),\s*oVar\.ptr<\w+>\(iOffsetO\)\s*\);\s*blas::axpy\(\s*size, ([^\n]*),\s*iVar2\.ptr<\w+>\(iOffset2\),\s*oVar\.ptr<\w+>\(iOffsetO\)\s*\);", r"{\n        \1* x = iVar1.ptr<\1>(iOffset1);\n        \1* y = oVar.ptr<\1>(iOffsetO);\n        \1* z = iVar2.ptr<\1>(iOffset2);\n        if (!inPlace)\n            blas::copy(size, x, y);\n        blas::axpy(size, \2, z, y);\n        }", s); assert n!=s
same("C03",M,(s,n))
# 16 early return instead of TYPE_ARRAY case
s=fn(m,"void Sub::scalar("); n=s.replace("    switch(type(iVar1))\n","    ind t = type(iVar1);\n    if (t == TYPE_ARRAY)\n    {\n        broadcast(iVar1, iVar2, oVar);\n        return;\n    }\n    switch(t)\n").replace("    case TYPE_ARRAY:\n        broadcast(iVar1, iVar2, oVar);\n        break;\n","",1); assert n!=s
same("C03",M,(s,n))
# 17 std::copy in Set::vector
s=fn(m,"void Set::vector("); n=re.sub(r"blas::copy\(\s*size,\s*iVar2\.ptr<(\w+)>\(iOffset2\),\s*oVar\.ptr<\w+>\(iOffsetO\)\s*\);", r"{\n        const \1* b = iVar2.ptr<\1>(iOffset2);\n        std::copy(b, b+size, oVar.ptr<\1>(iOffsetO));\n        }", s); assert n!=s
same("C03",M,(s,n))
# 18 Mul::vector order of branches
s=fn(m,"void Mul::scale("); n=s.replace("    if (oVar.is(iVar1))\n    {","    const bool inPlace = oVar.is(iVar1);\n    if (inPlace)\n    {"); 
n=n.replace("            float alpha = iVar2.cast<float>();\n            float* x = iVar1.ptr<float>(iOffset);\n            float* y =  oVar.ptr<float>(iOffset);\n            blas::copy(size, x, y);\n            blas::scal(size, alpha, y);","            blas::copy(size, iVar1.ptr<float>(iOffset), oVar.ptr<float>(iOffset));\n            blas::scal(size, iVar2.cast<float>(), oVar.ptr<float>(iOffset));"); assert n!=s
same("C03",M,(s,n))
# 19 Sum: local in helper reversed
same("C06",M,("""    T sum = (T)0;
    for (int i=0; i<iSize; i++)
        sum += iPointer[i];
    return sum;""","""    T total = (T)0;
    const T* p = iPointer;
    const T* e = iPointer + iSize;
    while (p != e)
        total += *p++;
    return total;"""))
# 20 ASum::alloc shared with helper
s=fn(m,"var ASum::alloc(")
same("C06",M,(s,"""static var realZero(var iVar)
{
    var z;
    switch (iVar.atype())
    {
    case TYPE_FLOAT:
    case TYPE_CFLOAT:
        z = 0.0f;
        break;
    case TYPE_DOUBLE:
    case TYPE_CDOUBLE:
        z = 0.0;
        break;
    }
    return z;
}


var ASum::alloc(var iVar) const
{
    var z = realZero(iVar);
    if (iVar.dim() <= 1)
        return z;
    if (!z.defined())
        return z;
    var s = iVar.shape();
    s[s.size()-1] = 1;
    return view(s, z);
}
"""))
# 21 Concatenate::vector template
s=fn(m,"void Concatenate::vector(")
n="template<class T>\nstatic void join(var& iVar, var& oVar)\n{\n    int pos = 0;\n    for (int i=0; i<iVar.size(); i++)\n    {\n        var v = iVar[i];\n        int s = v.shape(-1);\n        blas::copy(s, v.ptr<T>(), oVar.ptr<T>(pos));\n        pos += s;\n    }\n}\n\n"+re.sub(r"(case TYPE_(\w+):)\n.*?break;", lambda x: x.group(1)+"\n        join<%s>(iVar, oVar);\n        break;"%x.group(2).lower(), s, flags=re.S).replace("    int sum = 0;\n","")
same("C06",M,(s,n))
# 22 polyt rewritten
same("C06",M,("""        T tmp0 = oData[0];
        for (int j=0; j<=i; j++)
        {
            T tmp1 = oData[j+1];
            oData[j+1] -= iData[i]*tmp0;
            tmp0 = tmp1;
        }""","""        for (int j=i; j>=0; j--)
            oData[j+1] -= iData[i]*oData[j];"""))
# 23 RealUnary alloc if/else
s=fn(m,"var RealUnaryFunctor::alloc(")
same("C05",M,(s,"""var RealUnaryFunctor::alloc(var iVar) const
{
    var s = iVar.shape();
    ind t = iVar.atype();
    if ((t == TYPE_FLOAT) || (t == TYPE_CFLOAT))
        return view(s, 0.0f);
    if ((t == TYPE_DOUBLE) || (t == TYPE_CDOUBLE))
        return view(s, 0.0);
    return nil;
}
"""))
# 24 macro -> temp
same("C05",M,("            oVar = std::f(iVar.get<cfloat>());                          \\\n            break;","            {                                                           \\\n                cfloat x = iVar.get<cfloat>();                          \\\n                oVar = std::f(x);                                       \\\n            }                                                           \\\n            break;"))
# 25 Pow with locals
s=fn(m,"void Pow::scalar("); n=re.sub(r"oVar = std::pow\(iVar1\.get<(\w+)>\(\), iVar2\.cast<\w+>\(\)\);", r"{\n        \1 e = iVar2.cast<\1>();\n        \1 b = iVar1.get<\1>();\n        oVar = std::pow(b, e);\n        }", s)
same("C05",M,(s,n))
# 26 type() helper reordered
same("C05",M,("    ind type = iVar.type();\n    if (iVar.atype<cdouble>() && (iVar.size() == 1))\n        type = TYPE_CDOUBLE;\n    return type;","    if ((iVar.size() == 1) && (iVar.atype() == TYPE_CDOUBLE))\n        return TYPE_CDOUBLE;\n    return iVar.type();"))
# 27 Dot::vector extraction of gemm
s=fn(m,"void Dot::vector("); n=re.sub(r"blas::gemm\(\s*iVar1\.shape\(-2\), iVar2\.shape\(1\), iVar1\.shape\(-1\),\s*([\d.f]+),\s*iVar1\.ptr<(\w+)>\(iOffset1\),\s*iVar2\.ptr<\w+>\(iOffset2\),\s*([\d.f]+),\s*oVar\.ptr<\w+>\(iOffsetO\)\s*\);", r"matmul<\2>(iVar1, iOffset1, iVar2, iOffset2, oVar, iOffsetO);", s); assert n!=s
same("C06",M,(s,"""template<class T>
static void matmul(
    var& iA, ind iOffsetA, var& iB, ind iOffsetB, var& oC, ind iOffsetC
)
{
    int m = iA.shape(-2);
    int k = iA.shape(-1);
    int n = iB.shape(1);
    blas::gemm(m, n, k, (T)1, iA.ptr<T>(iOffsetA), iB.ptr<T>(iOffsetB), (T)0, oC.ptr<T>(iOffsetC));
}

"""+n))
# 28 Sort: pointer hoist
s=fn(m,"void Sort::vector("); n=re.sub(r"std::sort\(iVar\.ptr<(\w+)>\(\), iVar\.ptr<\w+>\(\)\+size\);", r"{\n        \1* p = iVar.ptr<\1>();\n        std::sort(p, p + size);\n        }", s)
same("C06",M,(s,n))
# 29 scalarAlloc inverted
s=fn(m,"static var scalarAlloc(")
same("C06",M,(s,"""static var scalarAlloc(var iVar)
{
    if (iVar.dim() <= 1)
    {
        var r;
        r = iVar.at(0);
        return r;
    }

    // Allocate an output array
    var s = iVar.shape();
    s[-1 + s.size()] = 1;
    return view(s, iVar.at(0));
}
"""))
# 30 Concatenate alloc split
same("C06",M,("""        if (iVar[v].dim() != dim)
            throw error("Concatenate: dimensions differ");
        for (int d=0; d<dim-1; d++)
            if (iVar[v].shape(d) != iVar[0].shape(d))
                throw error("Concatenate: dimensions differ");
        // ...and sum the low dimensions
        sum += iVar[v].shape(-1);""","""        var w = iVar[v];
        bool match = w.dim() == dim;
        for (int d=0; match && d<dim-1; d++)
            match = w.shape(d) == iVar[0].shape(d);
        if (!match)
            throw error("Concatenate: dimensions differ");
        // ...and sum the low dimensions
        sum += w.shape(-1);"""))
# 31 Mul::broadcast / Add::broadcast shape
i=m.index("void Mul::broadcast("); 
s=fn(m,"void Mul::broadcast(")
print_=s
# 32 Roots
same("C06",M,("    for (int r=0; r<size-1; r++)\n        for (int c=0; c<size-1; c++)\n            a(r+1,c) = (r == c) ? 1.0 : 0.0;","    for (int r=1; r<size; r++)\n        for (int c=0; c<size-1; c++)\n        {\n            if (c == r-1)\n                a(r,c) = 1.0;\n            else\n                a(r,c) = 0.0;\n        }"))
