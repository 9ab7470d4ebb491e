import re
H="lube/heap.cpp"; W="lube/view.cpp"
h=open("/repo/"+H).read(); w=open("/repo/"+W).read()
def fn(src, head):
    i=src.index(head); j=src.index("\n}\n", i)+3
    return src[i:j]
V=[]
def same(pid,file,*edits):
    V.append((pid,file,[(file,o,n,0) for o,n in edits],None,None,"same"))
def bug(pid,file,*edits):
    V.append((pid,file,[(file,o,n,0) for o,n in edits],None,None,"bug"))
# 0 resize split into two helpers
s=fn(h,"void Heap::resize(")
n="""template<class D>
static void clearFrom(D iData, ind iType, int iBeg, int iEnd)
{
    for (int i=iBeg; i<iEnd; i++)
        switch (iType)
        {
        case TYPE_VAR:
            iData.vp[i] = nil;
            break;
        case TYPE_PAIR:
            iData.pp[i].val = nil;
            iData.pp[i].key = nil;
            break;
        }
}

"""+s.replace(s[s.index("    if (mCapacity > 0)\n        for"):s.index("    int size = iSize;")],"    if (mCapacity > 0)\n        clearFrom(mData, mType, iSize, mSize);\n")
same("C09",H,(s,n.replace("static void clearFrom(dataType","static void clearFrom(IHeap::dataType") if "IHeap::dataType" in h else n))
# 1 early return in resize
n=s.replace("""    // Unallocated
    if (mCapacity == 0)
    {
        // Allocate
        int newSize = allocSize(iSize);
        alloc(newSize);
        mCapacity = newSize;
    }
""","""    int newSize = allocSize(iSize);
    // Unallocated
    if (mCapacity == 0)
    {
        // Allocate
        alloc(newSize);
        mCapacity = newSize;
    }
""").replace("        // Re-alloc.\n        int newSize = allocSize(iSize);\n","").replace("            int toCopy = std::min(mCapacity, newSize);\n","            const int toCopy = mCapacity;\n")
assert n!=s
same("C09",H,(s,n))
# 2 switch instead of if chain
n=s.replace("""            if (mType == TYPE_VAR)
                for (int i=0; i<toCopy; i++)
                    mData.vp[i] = old.vp[i];
            else if (mType == TYPE_PAIR)
                for (int i=0; i<toCopy; i++)
                    mData.pp[i] = old.pp[i];
            else
                std::memcpy(mData.cp, old.cp, sizeOf(mType)*toCopy);""","""            switch (mType)
            {
            case TYPE_VAR:
                std::copy(old.vp, old.vp+toCopy, mData.vp);
                break;
            case TYPE_PAIR:
                std::copy(old.pp, old.pp+toCopy, mData.pp);
                break;
            default:
                std::memcpy(mData.cp, old.cp, toCopy*sizeOf(mType));
                break;
            }"""); assert n!=s
same("C09",H,(s,n))
# 3 copies only what is in use
n=s.replace("int toCopy = std::min(mCapacity, newSize);","int toCopy = mSize;"); assert n!=s
same("C09",H,(s,n))
# 4 append memcpy
s4=h[h.index("        int beg = mSize;   "):h.index("APPEND(char, cp")]
same("C11",H,(s4,"""        int beg = mSize;                            \\
        resize(beg + iSize);                        \\
        if (iSize > 0)                              \\
            std::memcpy(mData.P + beg, iData, iSize*sizeof(T)); \\
    }

"""))
# 5 append pointer loop
same("C11",H,(s4,"""        T* dst;                                     \\
        resize(mSize + iSize);                      \\
        dst = mData.P + (mSize - iSize);            \\
        while (iSize-- > 0)                         \\
            *dst++ = *iData++;                      \\
    }

"""))
# 6 copy via sizeOf
s=fn(h,"void Heap::copy(")
same("C14",H,(s,"""void Heap::copy(const Heap* iHeap, int iSize)
{
    switch(mType)
    {
    case TYPE_CHAR:
    case TYPE_INT:
    case TYPE_LONG:
    case TYPE_FLOAT:
    case TYPE_DOUBLE:
    case TYPE_CFLOAT:
    case TYPE_CDOUBLE:
        memcpy(mData.cp, iHeap->mData.cp, mSize*sizeOf(mType));
        break;
    case TYPE_VAR:
        for (int i=mSize-1; i>=0; i--)
            mData.vp[i] = iHeap->mData.vp[i];
        break;
    case TYPE_PAIR:
        for (int i=0; i<mSize; i++)
        {
            mData.pp[i].key = iHeap->mData.pp[i].key;
            mData.pp[i].val = iHeap->mData.pp[i].val;
        }
        break;
    default:
        throw error("Heap::copy(): Unknown type");
    }
}
"""))
# 7 shift: template
s=fn(h,"var Heap::shift(")
n=re.sub(r"r = mData\.(\w+)\[0\];\n        memmove\(mData\.\w+, mData\.\w+\+1, \(mSize-1\)\*sizeof\((char|int|long|float|double|cfloat|cdouble)\)\);", r"r = slide(mData.\1, mSize);", s); assert n!=s
same("C11",H,(s,"""template<class T>
static T slide(T* iData, int iSize)
{
    T first = *iData;
    memmove(iData, iData+1, sizeof(T)*(iSize-1));
    return first;
}

"""+"/**/\n"+n))
# 8 shift with std::copy for scalars
n=re.sub(r"memmove\(mData\.(\w+), mData\.\w+\+1, \(mSize-1\)\*sizeof\((char|int|long|float|double)\)\);", r"std::copy(mData.\1+1, mData.\1+mSize, mData.\1);", s); assert n!=s
same("C11",H,(s,n))
# 9 unshift hoists n
s=fn(h,"void Heap::unshift("); n=s.replace("    resize(mSize+1);\n","    const int n = mSize;\n    resize(n+1);\n").replace("(mSize-1)*","n*"); assert n!=s
same("C11",H,(s,n))
# 10 at() with ptr
s=fn(h,"var Heap::at("); n=s.replace("    if ( (iIndex < 0) || (iIndex >= mSize) )\n        throw std::range_error(\"Heap::at(): index out of bounds\");\n","    const bool inside = (0 <= iIndex) && (iIndex < mSize);\n    if (!inside)\n        throw std::range_error(\"Heap::at(): index out of bounds\");\n").replace("        r = iKey ? mData.pp[iIndex].key : mData.pp[iIndex].val;","    {\n        const pair& p = mData.pp[iIndex];\n        if (iKey)\n            r = p.key;\n        else\n            r = p.val;\n    }"); assert n!=s
same("C08",H,(s,n))
# 11 neq merged loop
s=fn(h,"bool Heap::neq(")
same("C13",H,(s,"""bool Heap::neq(IHeap* iHeap)
{
    const bool pairs = (type() == TYPE_PAIR);
    const bool iPairs = (iHeap->type() == TYPE_PAIR);
    if (pairs != iPairs)
        return true;
    const int n = size();
    for (int i=0; i<n; i++)
    {
        if (pairs && (key(i) != iHeap->key(i)))
            return true;
        if (at(i) != iHeap->at(i))
            return true;
    }
    return false;
}
"""))
# 12 lt: min hoisted, helper for three-way
s=fn(h,"bool Heap::lt(")
n=s.replace("    for (int i=0; i<std::min(size(), iHeap->size()); i++)\n    {","    const int n = size() < iHeap->size() ? size() : iHeap->size();\n    for (int i=0; i<n; i++)\n    {\n        var a = at(i);\n        var b = iHeap->at(i);").replace("at(i) < iHeap->at(i)","a < b").replace("iHeap->at(i) < at(i)","b < a").replace("        return c ? c < 0 : size() < iHeap->size();","        if (c != 0)\n            return c < 0;\n        return size() < iHeap->size();"); assert n!=s
same("C13",H,(s,n))
# 13 allocSize loop
s=fn(h,"int allocSize(")
same("C09",H,(s,"""int allocSize(int iSize)
{
    assert(iSize >= 0);
    int size = 8;
    while (size < iSize)
        size *= 2;
    return size;
}
"""))
# 14 deref uses
s=fn(h,"var* Heap::deref(")
same("C09",H,(s,"""var* Heap::deref(ind iIndex)
{
    if (mType == TYPE_VAR)
        return mData.vp + iIndex;
    if (mType == TYPE_PAIR)
        return &(mData.pp + iIndex)->val;
    return 0;
}
"""))
# 15 detach
s=fn(h,"int Heap::detach(")
same("C01",H,(s,"""int Heap::detach()
{
    assert(mRefCount > 0);
    mRefCount -= 1;
    if (mRefCount > 0)
        return mRefCount;
    delete this;
    return 0;
}
"""))
# 16 view setStrides with helper
s=fn(w,"void View::setStrides(")
n=s.replace("    for (int i=iDim-1; i>=0; i--)\n    {\n        if (mData.ip[i*2+1] < 0)\n            throw error(\"View::setStrides(): Negative dimension\");\n        mData.ip[i*2+2] = p;\n        p *= mData.ip[i*2+1];","    for (int i=iDim; i>0; i--)\n    {\n        const int extent = mData.ip[i*2-1];\n        if (extent < 0)\n            throw error(\"View::setStrides(): Negative dimension\");\n        mData.ip[i*2] = p;\n        p = p*extent;"); assert n!=s
same("C10",W,(s,n))
# 17 pointer walk
n=s.replace("    for (int i=iDim-1; i>=0; i--)\n    {\n        if (mData.ip[i*2+1] < 0)\n            throw error(\"View::setStrides(): Negative dimension\");\n        mData.ip[i*2+2] = p;\n        p *= mData.ip[i*2+1];","    int* ip = mData.ip + 2*iDim;\n    for (int i=0; i<iDim; i++, ip-=2)\n    {\n        if (ip[-1] < 0)\n            throw error(\"View::setStrides(): Negative dimension\");\n        ip[0] = p;\n        p *= ip[-1];").replace("if (p+mData.ip[0] > mHeap->size())","if (mHeap->size() - mData.ip[0] < p)"); assert n!=s
same("C10",W,(s,n))
# 18 ctor list: index loop
s=w[w.index("    int i = 0;\n    for (const int* it"):w.index("    // The second of each pair is the stride\n    setStrides(dim);")]
same("C10",W,(s,"""    const int* it = iList.begin();
    for (int i=0; i<dim; i++)
    {
        mData.ip[i*2+1] = it[i];
        mData.ip[i*2+2] = 0;
    }

"""))
# 19 ctor common init
same("C10",W,("    mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);\n","    Heap* under = iHeap->view();\n    const int off = under ? iHeap->offset() : 0;\n    mHeap = under ? under : reinterpret_cast<Heap*>(iHeap);\n"),("    mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;","    mData.ip[0] = off;"))
# 20 shape bounds restated
same("C08",W,("""    int index = iDim*2 + 1;
    if ((index < 1) || (index >= mSize))
        throw std::range_error("View::shape(): dimension out of bounds");
    return mData.ip[index];""","""    if ((iDim < 0) || (iDim >= mSize/2))
        throw std::range_error("View::shape(): dimension out of bounds");
    return mData.ip[2*iDim + 1];"""))
# 21 copyable
s=fn(w,"bool View::copyable(")
same("C02",W,(s,"""bool View::copyable(IHeap* iHeap)
{
    if (!iHeap || (type() != iHeap->type()))
        return false;
    const int n = dim();
    if (n != iHeap->dim())
        return false;
    if (n == 1)
        return (size() == iHeap->size());
    int i = 0;
    while ((i < n) && (shape(i) == iHeap->shape(i)))
        ++i;
    return (i == n);
}
"""))
# 22 View::at helper
same("C08",W,("var View::at(int iIndex, bool iKey) const\n{\n    if ( (iIndex < 0) || (iIndex >= size()) )\n        throw std::range_error(\"View::at(): index out of bounds\");\n    return mHeap->at(iIndex + mData.ip[0], iKey);","/** Index in the underlying array */\nstatic int under(int iIndex, int iSize, int iOffset)\n{\n    if ( (iIndex < 0) || (iIndex >= iSize) )\n        throw std::range_error(\"View::at(): index out of bounds\");\n    return iOffset + iIndex;\n}\n\nvar View::at(int iIndex, bool iKey) const\n{\n    int i = under(iIndex, size(), mData.ip[0]);\n    return mHeap->at(i, iKey);"))
# 23 copy ctor
s=fn(w,"View::View(const IHeap& iHeap, bool iAllocOnly)")
same("C14",W,(s,s.replace("    mHeap = new Heap(*iHeap.view(), iAllocOnly);\n    mHeap->attach();\n    copy(","    Heap* data = new Heap(*iHeap.view(), iAllocOnly);\n    data->attach();\n    mHeap = data;\n    copy(")))
# 24 offset
same("C10",W,("    if ((iOffset < 0) || (iOffset > mHeap->size() - size()))\n        throw error(\"View::offset(): offset out of range\");\n    mData.ip[0] = iOffset;\n    return iOffset;","    if (iOffset >= 0 && iOffset + size() <= mHeap->size())\n    {\n        mData.ip[0] = iOffset;\n        return iOffset;\n    }\n    throw error(\"View::offset(): offset out of range\");"))
