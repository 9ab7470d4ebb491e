M, FN, V_ = "lube/math.cpp", "lube/func.cpp", "lube/var.h"
V = [
 ("C03", M, "*oVar.ptr<int>() = iVar1.get<int>() + iVar2.cast<int>();", "*oVar.ptr<int>() = iVar2.get<int>() + iVar2.cast<int>();", None, "bug"),
 ("C03", M, "*oVar.ptr<long>() = iVar1.get<long>() - iVar2.cast<long>();", "*oVar.ptr<long>() = iVar1.get<long>() - iVar2.cast<int>();", None, "bug"),
 ("C03", M, "*oVar.ptr<long>() = iVar1.get<long>() - iVar2.cast<long>();", "*oVar.ptr<int>() = iVar1.get<long>() - iVar2.cast<long>();", None, "bug"),
 ("C03", M, "*oVar.ptr<cdouble>() = iVar1.get<cdouble>() / iVar2.cast<cdouble>();", "*oVar.ptr<cdouble>() = iVar2.cast<cdouble>() / iVar1.get<cdouble>();", None, "bug"),
 ("C03", M, "            size, -1.0,\n", "            size, 1.0,\n", None, "bug"),
 ("C03", M, "0.0, oVar.ptr<double>(iOffsetO));", "1.0, oVar.ptr<double>(iOffsetO));", None, "bug"),
 ("C03", M, "    if (iVar1.is(oVar))\n    {\n        // tbmv", "    if (iVar2.is(oVar))\n    {\n        // tbmv", None, "bug"),
 ("C03", M, "iVar2.ptr<double>(iOffset2), iVar1.ptr<double>(iOffset1)\n            );", "iVar2.ptr<double>(iOffset1), iVar1.ptr<double>(iOffset1)\n            );", None, "bug"),
 ("C03", M, "            blas::copy(size, x, y);\n            blas::scal(size, alpha, y);", "            blas::copy(size, x, y);\n            blas::scal(size, alpha, x);", 1, "bug"),
 ("C03", M, "    case TYPE_LONG:\n        *oVar.ptr<long>() = iVar1.get<long>() * iVar2.cast<long>();\n        break;\n", "", None, "bug"),
 ("C03", V_, "var operator -(var iVar) const { return sub(*this, iVar); };", "var operator -(var iVar) const { return sub(iVar, *this); };", None, "bug"),
 ("C03", V_, "{ div(*this, iVar, *this); return *this; }", "{ div(*this, iVar); return *this; }", None, "bug"),
 ("C03", FN, "    var v = alloc(iVar1, iVar2);\n    scalar(iVar1, iVar2, v);", "    var v = iVar1;\n    scalar(iVar1, iVar2, v);", None, "bug"),
 ("C04", FN, "int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();", "int stepO = dim1-dim2 > 1 ? oVar.stride(dimO-dim2-1) : oVar.size();", None, "bug"),
 ("C04", FN, "for (int i=0; i<nOps; i++)\n        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);", "for (int i=1; i<nOps; i++)\n        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);", None, "bug"),
 ("C04", FN, "for (int i=0; i<nOps; i++)\n        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);", "for (int i=0; i<nOps; i++)\n        vector(iVar1, step1*i, iVar2, 0, oVar, step1*i);", None, "bug"),
 ("C04", FN, "for (int i=0; i<nOps; i++)\n        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);", "int o1 = 0, oO = 0;\n    while (nOps-- > 0)\n    {\n        vector(iVar1, o1, iVar2, 0, oVar, oO);\n        o1 += step1;\n        oO += stepO;\n    }", None, "same"),
 ("C04", FN, "for (int i=0; i<nOps; i++)\n        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);", "for (int i=nOps; i>0; i--)\n        vector(iVar1, step1*(nOps-i), iVar2, 0, oVar, stepO*(nOps-i));", None, "same"),
 ("C04", FN, "    if (dim2 > dim1)\n", "    if (dim2 > dim1 + 1)\n", None, "bug"),
 ("C04", FN, "    if (mDim > dimI)\n", "    if (mDim > dimI + 1)\n", None, "bug"),
 ("C04", FN, "for (int i=1; i<=iVar2.dim(); i++)", "for (int i=1; i<iVar2.dim(); i++)", None, "bug"),
 ("C04", FN, "    for (int i=1; i<iVar.size(); i++)\n        if (iVar[0].atype() != iVar[i].atype())", "    for (int i=1; i<iVar.size()-1; i++)\n        if (iVar[0].atype() != iVar[i].atype())", None, "bug"),
 ("C04", FN, "int step = cdim > 0 ? iVar[j].stride(cdim-1) : 0;", "int step = stepO;", None, "bug"),
 ("C04", FN, "int step = cdim > 0 ? iVar[j].stride(cdim-1) : 0;", "int step = cdim > 0 ? iVar[0].stride(cdim-1) : 0;", None, "bug"),
 ("C04", FN, "var ov = oVar.subview(dimO-cdim, iOOffset);", "var ov = oVar.subview(dimO-cdim, iIOffset);", None, "bug"),
 ("C04", "lube/math.h", "Sum() { mDim = 1; };", "Sum() { mDim = 2; };", 1, "bug"),

 # C01
 ("C01", "lube/var.cpp", "        attach();\n        if (tmp)\n            detach(tmp);", "        if (tmp)\n            detach(tmp);", None, "bug"),
 ("C01", "lube/var.cpp", "        if (tmp)\n            detach(tmp);\n        dereference();", "        dereference();", None, "bug"),
 ("C01", "lube/var.cpp", "    iVar.mData.hp = 0;\n    iVar.mType = TYPE_ARRAY;", "    iVar.mType = TYPE_ARRAY;", None, "bug"),
 ("C01", "lube/var.cpp", "    mType = iVar.mType;\n    attach();\n}", "    mType = iVar.mType;\n    if (!reference())\n        attach();\n}", None, "bug"),
 ("C01", "lube/heap.cpp", "    if (count == 0)\n        delete this;", "    if (count <= 1)\n        delete this;", None, "bug"),
 ("C01", "lube/heap.cpp", "    if (count == 0)\n        delete this;", "    if (mRefCount < 0)\n        delete this;", None, "bug"),
 ("C01", "lube/heap.cpp", "        delete [] iData.vp;", "        delete [] iData.cp;", None, "bug"),
 ("C01", "lube/heap.cpp", "        delete [] iData.pp;", "        ;", None, "bug"),
 ("C01", "lube/view.cpp", "    mHeap->detach();\n    mHeap = 0;", "    mHeap = 0;", None, "bug"),
 ("C01", "lube/view.cpp", "    mHeap = new Heap(*iHeap.view(), iAllocOnly);\n    mHeap->attach();", "    mHeap = new Heap(*iHeap.view(), iAllocOnly);", None, "bug"),
 ("C01", "lube/view.cpp", "    // Attach last; the d'tor will not run if the above throws\n    mHeap->attach();", "", None, "bug"),
 ("C01", "lube/heap.cpp", "    assert(mRefCount > 0);\n    int count = --mRefCount;\n", "    int count = mRefCount - 1;\n    mRefCount = count;\n", None, "same"),
 ("C01", "lube/var.cpp", "        IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;\n        mData = iVar.mData;", "        IHeap* tmp = 0;\n        if (mType == TYPE_ARRAY)\n            tmp = mData.hp;\n        mData = iVar.mData;", None, "same"),
 ("C01", "lube/var.cpp", "        mData = iVar.mData;\n        mType = iVar.mType;\n        attach();\n        if (tmp)\n            detach(tmp);\n        dereference();", "        std::swap(mData, iVar.mData);\n        std::swap(mType, iVar.mType);\n        dereference();", None, "same"),

 # C02
 ("C02", "lube/heap.cpp", "        r = iKey ? mData.pp[iIndex].key : mData.pp[iIndex].val;", "        r = iKey ? mData.pp[iIndex].val : mData.pp[iIndex].key;", None, "bug"),
 ("C02", "lube/heap.cpp", "        r = mData.lp[iIndex];\n", "        r = mData.ip[iIndex];\n", None, "bug"),
 ("C02", "lube/heap.cpp", "        r = mData.fp[iIndex];\n", "        r = (double)mData.fp[iIndex];\n", None, "bug"),
 ("C02", "lube/heap.cpp", "        return &mData.pp[iIndex].val;", "        return &mData.pp[iIndex].key;", None, "bug"),
 ("C02", "lube/view.cpp", "    return mHeap->at(iIndex + mData.ip[0], iKey);", "    return mHeap->at(iIndex, iKey);", None, "bug"),
 ("C02", "lube/view.cpp", "    return mHeap->key(iIndex + mData.ip[0]);", "    return mHeap->key(iIndex + mData.ip[1]);", None, "bug"),
 ("C02", "lube/var.cpp", "            *mData.hp->ptrlong(index) = iVar.cast<long>();", "            *mData.hp->ptrlong(index) = iVar.cast<int>();", None, "bug"),
 ("C02", "lube/var.cpp", "            *mData.hp->ptrfloat(index) = iVar.cast<float>();", "            *mData.hp->ptrfloat(mType) = iVar.cast<float>();", None, "bug"),
 ("C02", "lube/var.cpp", "            mData.hp->ptrpair(index)->val = iVar;", "            mData.hp->ptrpair(index)->key = iVar;", None, "bug"),
 ("C02", "lube/var.cpp", "        return castValue(castLong, *this);", "        return castValue(castInt, *this);", None, "bug"),
 ("C02", "lube/var.cpp", "        oVar = static_cast<T>(iVar.get<long>());", "        oVar = static_cast<T>(iVar.get<int>());", None, "bug"),
 ("C02", "lube/var.cpp", "        oVar = static_cast<T>(iVar.get<double>());", "        oVar = static_cast<T>(static_cast<float>(iVar.get<double>()));", None, "bug"),
 ("C02", "lube/var.cpp", "        oVar = fromComplex<T>(iVar.get<cfloat>());", "        oVar = static_cast<T>(iVar.get<cfloat>().imag());", None, "bug"),
 ("C02", "lube/var.cpp", "    if (v.type() == iVar.type() && v.atype() == iVar.atype())", "    if (v.type() >= iVar.type() && v.atype() >= iVar.atype())", None, "bug"),
 ("C02", "lube/heap.cpp", "    case TYPE_FLOAT:\n        r = mData.fp[iIndex];\n        break;", "    case TYPE_FLOAT:\n    {\n        const float* p = mData.fp + iIndex;\n        r = var(*p);\n        break;\n    }", None, "same"),
 ("C02", "lube/var.cpp", "            *mData.hp->ptrint(index) = iVar.cast<int>();", "        {\n            int* p = mData.hp->ptrint(0 - mType - 1);\n            *p = iVar.cast<int>();\n        }", None, "same"),
 ("C02", "lube/view.cpp", "    return mHeap->at(iIndex + mData.ip[0], iKey);", "    const int off = mData.ip[0];\n    var r = mHeap->at(off + iIndex, iKey);\n    return r;", None, "same"),

 # C08
 ("C08", 'lube/var.cpp', 'if ((iIndex < 0) || (iIndex >= v.size()))', 'if ((iIndex < 0) || (iIndex > v.size()))', None, 'bug'),
 ("C08", 'lube/var.cpp', 'if ((iIndex < 0) || (iIndex >= v.size()))', 'if (iIndex >= v.size())', None, 'bug'),
 ("C08", 'lube/var.cpp', 'if ((iIndex < 0) || (iIndex >= v.size()))', 'if ((iIndex < 0) || (iIndex >= v.size()-1))', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if ((iIndex < 0) || (iIndex >= v.size()))\n        throw', '    const int n = v.size();\n    bool inside = iIndex >= 0 && iIndex < n;\n    if (!inside)\n        throw', None, 'same'),
 ("C08", 'lube/var.cpp', 'if ((iIndex < 0) || (iIndex > size()))', 'if ((iIndex < -1) || (iIndex > size()))', None, 'bug'),
 ("C08", 'lube/var.cpp', 'if ((iIndex < 0) || (iIndex > size()))', 'if ((iIndex < 0) || (iIndex > size()+1))', None, 'bug'),
 ("C08", 'lube/var.cpp', 'if ((iIndex < 0) || (iIndex > size()-1))', 'if ((iIndex < 0) || (iIndex > size()))', None, 'bug'),
 ("C08", 'lube/var.cpp', 'if ((iIndex < 0) || (iIndex > size()-1))', 'if ((iIndex < 0) || (iIndex >= size()))', None, 'same'),
 ("C08", 'lube/var.cpp', '    if (iIndex < 0)\n        throw error("operator [int]: Negative index");\n    if (reference())\n        return mData.hp->derefInt(~mType, iIndex);', '    if (reference())\n        return mData.hp->derefInt(~mType, iIndex);\n    if (iIndex < 0)\n        throw error("operator [int]: Negative index");', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iIndex >= size())\n        resize(iIndex+1);', '    if (iIndex > size())\n        resize(iIndex+1);', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iIndex >= size())\n        resize(iIndex+1);', '    if (iIndex >= size())\n        resize(iIndex);', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iIndex >= size())\n        resize(iIndex+1);', '    resize(iIndex+1);', None, 'bug'),
 ("C08", 'lube/var.cpp', '        bounds(i, d);', '        bounds(i-1, d);', None, 'bug'),
 ("C08", 'lube/var.cpp', '        bounds(i, d);', '', None, 'bug'),
 ("C08", 'lube/var.cpp', '    bounds(0, iFirst);', '', None, 'bug'),
 ("C08", 'lube/var.cpp', '        p += d * stride(i);', '        p += d * stride(i-1);', None, 'bug'),
 ("C08", 'lube/var.cpp', 'for (int i=1; i<dim(); i++)\n    {\n        int d = va_arg', 'for (int i=1; i<dim()-1; i++)\n    {\n        int d = va_arg', None, 'bug'),
 ("C08", 'lube/var.cpp', 'for (int i=1; i<dim(); i++)\n    {\n        int d = va_arg', 'const int n = dim();\n    for (int i=1; i<n; ++i)\n    {\n        int d = va_arg', None, 'same'),
 ("C08", 'lube/var.cpp', '    if (iIndex < 0 || iIndex >= d)', '    if (iIndex < 0 || iIndex > d)', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iIndex < 0 || iIndex >= d)', '    if (iIndex >= d)', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iDim < 0)\n        iDim = dim() + iDim;', '    if (iDim < 0)\n        iDim = dim() + iDim - 1;', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iDim > 0)\n        throw error("var::shape(): dimension too large");', '    if (iDim > 1)\n        throw error("var::shape(): dimension too large");', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iSize < 0)\n        throw error("var::resize(): Negative size");', '', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (iDim < 1)\n        throw error("var::subview(): subview', '    if (iDim < 0)\n        throw error("var::subview(): subview', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if ( (index >= size()) || (heap()->key(index) != iVar) )\n        return nil;\n    return reference(index);', '    if (index >= size())\n        return nil;\n    return reference(index);', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if ( (index >= size()) || (heap()->key(index) != iVar) )\n        return nil;\n    return reference(index);', '    if ( (index > size()) || (heap()->key(index) != iVar) )\n        return nil;\n    return reference(index);', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if ( (index >= size()) || (heap()->key(index) != iVar) )\n        return nil;\n    return reference(index);', '    if ( (index < size()) && !(heap()->key(index) != iVar) )\n        return reference(index);\n    return nil;', None, 'same'),
 ("C08", 'lube/var.cpp', '        if (!heap() || !atype<pair>())\n            throw error("operator [var]: Not a map");', '        if (!heap())\n            throw error("operator [var]: Not a map");', None, 'bug'),
 ("C08", 'lube/var.cpp', '    if (!atype<pair>())\n        throw error("var::key(): Not a map");', '    if (!atype<pair>() && !atype<var>())\n        throw error("var::key(): Not a map");', None, 'bug'),
 ("C08", 'lube/heap.cpp', 'if ( (iIndex < 0) || (iIndex >= mSize) )', 'if ( (iIndex < 0) || (iIndex >= mCapacity) )', 0, 'bug'),
 ("C08", 'lube/heap.cpp', '    if (mSize < 1)\n        throw error("Heap::shift(): Array is empty");', '    if (mSize < 0)\n        throw error("Heap::shift(): Array is empty");', None, 'bug'),
 ("C08", 'lube/heap.cpp', '    if (mType != TYPE_PAIR)\n        throw error("Heap::key(): Not a key:value pair");\n', '', None, 'bug'),
 ("C08", 'lube/view.cpp', '(iOffset > mHeap->size() - size())', '(iOffset > mHeap->size())', None, 'bug'),
 ("C08", 'lube/view.cpp', '(iOffset > mHeap->size() - size())', '(iOffset + size() > mHeap->size())', None, 'same'),
 ("C08", 'lube/view.cpp', '    mData.ip[0] = iOffset;\n    return iOffset;', '    mData.ip[0] += iOffset;\n    return iOffset;', None, 'bug'),
 ("C08", 'lube/view.cpp', '    if ( (iIndex < 0) || (iIndex >= size()) )\n        throw std::range_error("View::at()', '    if ( (iIndex < 0) || (iIndex >= mHeap->size()) )\n        throw std::range_error("View::at()', None, 'bug'),
 ("C08", 'lube/view.cpp', '    if ((index < 1) || (index >= mSize))', '    if ((index < 0) || (index >= mSize))', None, 'same'),
 ("C08", 'lube/view.cpp', '    if ((index < 2) || (index >= mSize))', '    if ((index < 2) || (index > mSize))', None, 'same'),
 ("C08", 'lube/view.cpp', '    if ((index < 2) || (index >= mSize))', '    if ((index < 0) || (index >= mSize))', None, 'bug'),
 ("C08", 'lube/view.cpp', '    throw error("View::shift(): can\'t shift a view");', '    return Heap::shift();', None, 'bug'),

 # C11
 ("C11", 'lube/var.cpp', '        // Implies array; insert a single var\n        resize(size()+1);\n        for (int i=size()-1; i>iIndex; i--)', '        // Implies array; insert a single var\n        resize(size()+1);\n        for (int i=size()-1; i>=iIndex; i--)', None, 'bug'),
 ("C11", 'lube/var.cpp', '        // Implies array; insert a single var\n        resize(size()+1);\n        for (int i=size()-1; i>iIndex; i--)\n            at(i) = at(i-1);', '        // Implies array; insert a single var\n        resize(size()+1);\n        for (int i=iIndex+1; i<size(); i++)\n            at(i) = at(i-1);', None, 'bug'),
 ("C11", 'lube/var.cpp', '        // Implies array; insert a single var\n        resize(size()+1);\n        for (int i=size()-1; i>iIndex; i--)\n            at(i) = at(i-1);', '        // Implies array; insert a single var\n        const int n = size();\n        resize(n+1);\n        int i = n;\n        while (i > iIndex)\n        {\n            at(i) = at(i-1);\n            --i;\n        }', None, 'same'),
 ("C11", 'lube/var.cpp', '            heap()->key(i) = heap()->key(i-1);\n', '', None, 'bug'),
 ("C11", 'lube/var.cpp', '        at(iIndex).clear();', '', None, 'bug'),
 ("C11", 'lube/var.cpp', '        if (iVar.is(*this))\n            iVar = iVar.copy();', '', None, 'bug'),
 ("C11", 'lube/var.cpp', '        if (iVar.is(*this))\n            iVar = iVar.copy();', '        iVar = iVar.copy();', None, 'same'),
 ("C11", 'lube/var.cpp', '        for (int i=size()-1; i>iIndex+n-1; i--)', '        for (int i=size()-1; i>iIndex+n; i--)', None, 'bug'),
 ("C11", 'lube/var.cpp', '            at(i) = at(i-n);', '            at(i) = at(i-1);', None, 'bug'),
 ("C11", 'lube/var.cpp', '            at(iIndex+i) = iVar[i];', '            at(iIndex+i) = iVar[n-1-i];', None, 'bug'),
 ("C11", 'lube/var.cpp', '            at(iIndex+i) = iVar[i];', '            at(i) = iVar[i];', None, 'bug'),
 ("C11", 'lube/var.cpp', '        for (int i=0; i<n; i++)\n            at(iIndex+i) = iVar[i];', '        for (int i=iIndex; i<iIndex+n; i++)\n            at(i) = iVar[i-iIndex];', None, 'same'),
 ("C11", 'lube/var.cpp', '    // It may be an element of this array, which is about to move\n    iVar.dereference();\n\n    if (heap() && atype<var>())', '    if (heap() && atype<var>())', None, 'bug'),
 ("C11", 'lube/var.cpp', '    // It may be an element of this array, which is about to move\n    iVar.dereference();\n    heap()->unshift', '    heap()->unshift', None, 'bug'),
 ("C11", 'lube/var.cpp', '    for (int i=iIndex+1; i<size(); i++)\n    {\n        if (heap() && atype<pair>())', '    for (int i=size()-1; i>iIndex; i--)\n    {\n        if (heap() && atype<pair>())', None, 'bug'),
 ("C11", 'lube/var.cpp', '    for (int i=iIndex+1; i<size(); i++)\n    {\n        if (heap() && atype<pair>())', '    for (int i=iIndex+1; i<size()-1; i++)\n    {\n        if (heap() && atype<pair>())', None, 'bug'),
 ("C11", 'lube/var.cpp', '            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);', '            heap()->key(i-1) = heap()->key(i);\n        else\n            at(i-1) = at(i);', None, 'bug'),
 ("C11", 'lube/var.cpp', '    var r = at(iIndex).copy();', '    var r = at(iIndex);', None, 'bug'),
 ("C11", 'lube/var.cpp', '    var r = at(size()-1);\n    r.dereference();', '    var r = at(size()-1);', None, 'bug'),
 ("C11", 'lube/var.cpp', '    var r = at(size()-1);\n    r.dereference();\n    resize(size()-1);', '    const int last = size() - 1;\n    var r = at(last);\n    r.dereference();\n    resize(last);', None, 'same'),
 ("C11", 'lube/var.cpp', '    (*this)[size()] = iVar;', '    at(size()) = iVar;', None, 'bug'),
 ("C11", 'lube/var.cpp', '    (*this)[size()] = iVar;', '    (*this)[size()-1] = iVar;', None, 'bug'),
 ("C11", 'lube/var.cpp', '        if ( (type() != TYPE_ARRAY) && (iVar.type() != type()) )', '        if ( (type() != TYPE_ARRAY) && (iVar.atype() != atype()) )', None, 'bug'),
 ("C11", 'lube/var.cpp', '        resize(iSize);\n        resize(s);', '        resize(iSize);', None, 'bug'),
 ("C11", 'lube/var.cpp', '    if (iSize >= s)\n', '', None, 'bug'),
 ("C11", 'lube/var.cpp', 'heap()->append(std::strlen(iStr), iStr);', 'heap()->append(std::strlen(iStr)+1, iStr);', None, 'bug'),
 ("C11", 'lube/heap.cpp', 'memmove(mData.cfp, mData.cfp+1, (mSize-1)*sizeof(cfloat));', 'memmove(mData.cfp, mData.cfp+1, (mSize-1)*sizeof(float));', None, 'bug'),
 ("C11", 'lube/heap.cpp', 'memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));', 'memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(int));', None, 'bug'),
 ("C11", 'lube/heap.cpp', 'memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));', 'memmove(mData.lp+1, mData.lp, mSize*sizeof(long));', None, 'bug'),
 ("C11", 'lube/heap.cpp', '        mData.lp[0] = iVar.cast<long>();', '        mData.lp[0] = iVar.cast<int>();', None, 'bug'),
 ("C11", 'lube/heap.cpp', '        memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));\n        mData.dp[0] = iVar.cast<double>();', '        mData.dp[0] = iVar.cast<double>();\n        memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));', None, 'bug'),
 ("C11", 'lube/heap.cpp', '        r = mData.pp[0].val;\n        mData.pp[0].~pair();', '        r = mData.pp[0].key;\n        mData.pp[0].~pair();', None, 'bug'),
 ("C11", 'lube/heap.cpp', '        new (&mData.vp[0]) var();\n', '', None, 'bug'),
 ("C11", 'lube/heap.cpp', '        new (&mData.vp[mSize-1]) var();\n', '', None, 'bug'),
 ("C11", 'lube/heap.cpp', '            mData.P[beg+i] = iData[i];', '            mData.P[i] = iData[i];', None, 'bug'),
 ("C11", 'lube/heap.cpp', '        int beg = mSize;                            \\\n        resize(mSize + iSize);                      \\', '        resize(mSize + iSize);                      \\\n        int beg = mSize;                            \\', None, 'bug'),
 ("C11", 'lube/heap.cpp', '        for (int i=0; i<iSize; i++)                 \\\n            mData.P[beg+i] = iData[i];              \\', '        std::memcpy(mData.P+beg, iData, iSize*sizeof(T)); \\', None, 'same'),

 # C09
 ("C09", 'lube/heap.cpp', '    if (mType == TYPE_CHAR)\n        iSize += 1;\n', '', None, 'bug'),
 ("C09", 'lube/heap.cpp', '    iSize -= 1;\n    int size = 1;\n    while (iSize > 0)', '    iSize -= 1;\n    int size = 1;\n    while (iSize > 1)', None, 'bug'),
 ("C09", 'lube/heap.cpp', '    iSize -= 1;\n    int size = 1;\n    while (iSize > 0)', '    iSize -= 2;\n    int size = 1;\n    while (iSize > 0)', None, 'bug'),
 ("C09", 'lube/heap.cpp', '    iSize -= 1;\n    int size = 1;\n    while (iSize > 0)\n    {\n        iSize >>= 1;\n        size <<= 1;\n    }', '    int size = 1;\n    while (size < iSize)\n        size *= 2;', None, 'same'),
 ("C09", 'lube/heap.cpp', '    iSize -= 1;\n    int size = 1;\n    while (iSize > 0)\n    {\n        iSize >>= 1;\n        size <<= 1;\n    }', '    int size = 1;\n    for (; iSize > 0; iSize /= 2)\n        size *= 2;', None, 'same'),
 ("C09", 'lube/heap.cpp', '        if (mCapacity < newSize)', '        if (mCapacity < newSize-1)', None, 'bug'),
 ("C09", 'lube/heap.cpp', '        if (mCapacity < newSize)', '        if (mCapacity != newSize)', None, 'same'),
 ("C09", 'lube/heap.cpp', '        if (mCapacity < newSize)', '        if (mCapacity < iSize)', None, 'same'),
 ("C09", 'lube/heap.cpp', '        if (mCapacity < newSize)', '        if (mCapacity < size)', None, 'bug'),
 ("C09", 'lube/heap.cpp', 'std::memcpy(mData.cp, old.cp, sizeOf(mType)*toCopy);', 'std::memcpy(mData.cp, old.cp, toCopy);', None, 'bug'),
 ("C09", 'lube/heap.cpp', 'std::memcpy(mData.cp, old.cp, sizeOf(mType)*toCopy);', 'std::memcpy(mData.cp, old.cp, sizeOf(mType)*newSize);', None, 'bug'),
 ("C09", 'lube/heap.cpp', 'int toCopy = std::min(mCapacity, newSize);', 'int toCopy = mSize;', None, 'same'),
 ("C09", 'lube/heap.cpp', 'int toCopy = std::min(mCapacity, newSize);', 'int toCopy = mSize-1;', None, 'bug'),
 ("C09", 'lube/heap.cpp', '                    mData.pp[i] = old.pp[i];', '                    mData.pp[i].val = old.pp[i].val;', None, 'bug'),
 ("C09", 'lube/heap.cpp', '                    mData.pp[i] = old.pp[i];', '                {\n                    mData.pp[i].key = old.pp[i].key;\n                    mData.pp[i].val = old.pp[i].val;\n                }', None, 'same'),
 ("C09", 'lube/heap.cpp', '            dealloc(old);\n', '', None, 'bug'),
 ("C09", 'lube/heap.cpp', '            dealloc(old);\n', '            dealloc(mData);\n', None, 'bug'),
 ("C09", 'lube/heap.cpp', '            dealloc(old);\n            mCapacity = newSize;', '            mCapacity = newSize;\n            dealloc(old);', None, 'same'),
 ("C09", 'lube/heap.cpp', '        alloc(newSize);\n        mCapacity = newSize;\n    }\n\n    // Allocated', '        mCapacity = newSize;\n        alloc(newSize);\n    }\n\n    // Allocated', None, 'bug'),
 ("C09", 'lube/heap.cpp', '        mData.cp[mSize] = 0;\n        \n', '        mData.cp[iSize] = 0;\n        \n', None, 'bug'),
 ("C09", 'lube/heap.cpp', '    if (mType == TYPE_CHAR)\n        mData.cp[mSize] = 0;\n        \n', '', None, 'bug'),
 ("C09", 'lube/heap.cpp', '                mData.vp[i] = nil;\n', '                ;\n', None, 'bug'),
 ("C09", 'lube/heap.cpp', '        for (int i=iSize; i<mSize; i++)\n', '        for (int i=iSize; i<mSize-1; i++)\n', None, 'bug'),
 ("C09", 'lube/heap.cpp', '        for (int i=iSize; i<mSize; i++)\n', '        for (int i=mSize-1; i>=iSize; i--)\n', None, 'same'),
 ("C09", 'lube/heap.cpp', 'mData.pp[i].key = mData.pp[i].val = nil;', 'mData.pp[i].val = nil;', None, 'bug'),
 ("C09", 'lube/heap.cpp', '        mData.cdp = new cdouble[iSize];', '        mData.cfp = new cfloat[iSize];', None, 'bug'),
 ("C09", 'lube/heap.cpp', '        mData.lp = new long[iSize];', '        mData.ip = new int[iSize];', None, 'bug'),
 ("C09", 'lube/heap.cpp', '        delete [] iData.pp;', '        delete [] iData.vp;', None, 'bug'),
 ("C09", 'lube/var.cpp', '                IHeap* h = new Heap(iSize, tmp.mType);\n                v.mType = TYPE_ARRAY;', '                v.mType = TYPE_ARRAY;\n                IHeap* h = new Heap(iSize, v.mType);', None, 'bug'),
 ("C09", 'lube/var.cpp', '                if (iSize > 0)\n                    v.at(0) = tmp;', '                if (iSize > 0)\n                    v.at(iSize-1) = tmp;', None, 'bug'),
 ("C09", 'lube/var.cpp', '        v.attach(h);\n        v.at(0) = tmp;\n    }\n    return *this;', '        v.attach(h);\n    }\n    return *this;', None, 'bug'),
 ("C09", 'lube/var.cpp', '        heap()->resize(iSize);\n    }\n    return *this;', '        heap()->resize(iSize+1);\n    }\n    return *this;', None, 'bug'),

 # C10
 ("C10", 'lube/view.cpp', 'iHeap->view() ? iHeap->offset() : 0;', '0;', None, 'bug'),
 ("C10", 'lube/view.cpp', '    mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);', '    mHeap = reinterpret_cast<Heap*>(iHeap);', None, 'bug'),
 ("C10", 'lube/view.cpp', '    for (int i=iDim-1; i>=0; i--)', '    for (int i=iDim-1; i>0; i--)', None, 'bug'),
 ("C10", 'lube/view.cpp', '    for (int i=iDim-1; i>=0; i--)', '    for (int i=0; i<iDim; i++)', None, 'bug'),
 ("C10", 'lube/view.cpp', '        mData.ip[i*2+2] = p;\n        p *= mData.ip[i*2+1];', '        p *= mData.ip[i*2+1];\n        mData.ip[i*2+2] = p;', None, 'bug'),
 ("C10", 'lube/view.cpp', '    if (p+mData.ip[0] > mHeap->size())', '    if (p+mData.ip[0] >= mHeap->size())', None, 'bug'),
 ("C10", 'lube/view.cpp', '    if (p+mData.ip[0] > mHeap->size())', '    if (p > mHeap->size())', None, 'bug'),
 ("C10", 'lube/view.cpp', '    if (p+mData.ip[0] > mHeap->size())', '    const long room = (long)mHeap->size() - mData.ip[0];\n    if (room < p)', None, 'same'),
 ("C10", 'lube/view.cpp', '        if (mData.ip[i*2+1] < 0)\n            throw error("View::setStrides(): Negative dimension");', '', None, 'bug'),
 ("C10", 'lube/view.cpp', '    if (mData.ip[0] < 0)\n        throw error("View::setStrides(): Negative offset");', '', None, 'bug'),
 ("C10", 'lube/view.cpp', '        if (p > INT_MAX)\n            throw error("View::setStrides(): Array too small for view");', '', None, 'bug'),
 ("C10", 'lube/view.cpp', '    mData.ip[0] += iOffset;;', '    mData.ip[0] = iOffset;', 0, 'bug'),
 ("C10", 'lube/view.cpp', '    mData.ip[0] += iOffset;;', '    mData.ip[0] = iOffset;', 1, 'bug'),
 ("C10", 'lube/view.cpp', '        mData.ip[i*2+1] = iShape[i].cast<int>();', '        mData.ip[i*2+1] = iShape[dim-1-i].cast<int>();', None, 'bug'),
 ("C10", 'lube/view.cpp', '    for (const int* it=begin(iList); it!=end(iList); ++it)\n    {\n        mData.ip[i*2+1] = *it;\n        mData.ip[i*2+2] = 0;\n        i++;\n    }', '    for (auto d : iList)\n        mData.ip[2*i++ + 1] = d;', None, 'same'),
 ("C10", 'lube/view.cpp', '    return mHeap->at(iIndex + mData.ip[0], iKey);', '    return mHeap->at(iIndex, iKey);', None, 'bug'),
 ("C10", 'lube/view.cpp', '    return mHeap->at(iIndex + mData.ip[0], iKey);', '    return mHeap->at(offset() + iIndex, iKey);', None, 'same'),
 ("C10", 'lube/view.cpp', '    return mHeap->key(iIndex + mData.ip[0]);', '    return mHeap->key(iIndex);', None, 'bug'),
 ("C10", 'lube/heap.h', '            return mHeap->derefAType(iIndex + mData.ip[0]);', '            return mHeap->derefAType(iIndex);', None, 'bug'),
 ("C10", 'lube/heap.h', '            return mHeap->deref(iIndex + mData.ip[0]);', '            return mHeap->deref(iIndex);', None, 'bug'),
 ("C10", 'lube/heap.h', 'return mHeap->ptr##T(iIndex + mData.ip[0]);', 'return mHeap->ptr##T(iIndex) + mData.ip[0];', None, 'same'),
 ("C10", 'lube/heap.h', 'return mHeap->ptr##T(iIndex + mData.ip[0]);', 'return mHeap->ptr##T(iIndex);', None, 'bug'),
 ("C10", 'lube/heap.h', 'virtual int size() const { return stride(0) * shape(0); };', 'virtual int size() const { return shape(0); };', None, 'bug'),
 ("C10", 'lube/heap.h', 'virtual ind type() const { return mHeap->type(); };', 'virtual ind type() const { return mType; };', 0, 'bug'),
 ("C10", 'lube/view.cpp', '        if (shape(i) != iHeap->shape(i))', '        if (shape(i) != iHeap->shape(0))', None, 'bug'),
 ("C10", 'lube/view.cpp', '    for (int i=0; i<dim(); i++)\n        if (shape(i)', '    for (int i=1; i<dim(); i++)\n        if (shape(i)', None, 'bug'),
 ("C10", 'lube/view.cpp', '    if (dim() == 1)\n        return (size() == iHeap->size());', '    if (dim() == 1)\n        return (size() >= iHeap->size());', None, 'bug'),
 ("C10", 'lube/view.cpp', '    if (type() != iHeap->type())\n        return false;\n', '', None, 'bug'),
 ("C10", 'lube/view.cpp', '    if (dim() != iHeap->dim())\n        return false;\n', '', None, 'bug'),
 ("C10", 'lube/var.cpp', '    for (int i=dim()-iDim; i>0; --i)\n        is.shift();', '    for (int i=dim()-iDim; i>0; --i)\n        is.pop();', None, 'bug'),
 ("C10", 'lube/var.cpp', '    for (int i=dim()-iDim; i>0; --i)\n        is.shift();', '    while (is.size() > iDim)\n        is.shift();', None, 'same'),
 ("C10", 'lube/var.cpp', '    for (int i=dim()-iDim; i>0; --i)\n        is.shift();', '    for (int i=dim()-iDim; i>1; --i)\n        is.shift();', None, 'bug'),
 ("C10", 'lube/var.cpp', '    var iv = view(is, iOffset);', '    var iv = view(is, offset()+iOffset);', None, 'bug'),
 ("C10", 'lube/var.cpp', '    v.attach(new View(heap(), iShape, iOffset));', '    v.attach(new View(heap(), iShape, 0));', None, 'bug'),
 ("C10", 'lube/var.cpp', '    for (int i=0; i<iShape.size(); i++)\n        s *= iShape[i].cast<int>();', '    for (int i=0; i<iShape.size(); i++)\n        s += iShape[i].cast<int>();', None, 'bug'),
 ("C10", 'lube/var.cpp', '    for (int i=0; i<dim(); i++)\n        s.push(shape(i));', '    for (int i=0; i<dim(); i++)\n        s.push(shape(dim()-1-i));', None, 'bug'),
 ("C10", 'lube/var.cpp', '    for (int i=0; i<dim(); i++)\n        s.push(shape(i));', '    const int n = dim();\n    int i = 0;\n    while (i != n)\n        s.push(shape(i++));', None, 'same'),
 # C14
 ("C14", 'lube/heap.cpp', 'memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(cfloat));', 'memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(float));', None, 'bug'),
 ("C14", 'lube/heap.cpp', 'memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(cdouble));', 'memcpy(mData.cp, iHeap->mData.cp, mSize*sizeof(double));', None, 'bug'),
 ("C14", 'lube/heap.cpp', 'memcpy(mData.lp, iHeap->mData.lp, mSize*sizeof(long));', 'memcpy(mData.lp, iHeap->mData.lp, (mSize-1)*sizeof(long));', None, 'bug'),
 ("C14", 'lube/heap.cpp', '        for (int i=0; i<mSize; i++)\n            mData.pp[i] = iHeap->mData.pp[i];', '        for (int i=0; i<mSize; i++)\n            mData.pp[i].val = iHeap->mData.pp[i].val;', None, 'bug'),
 ("C14", 'lube/heap.cpp', '        for (int i=0; i<mSize; i++)\n            mData.vp[i] = iHeap->mData.vp[i];', '        for (int i=1; i<mSize; i++)\n            mData.vp[i] = iHeap->mData.vp[i];', None, 'bug'),
 ("C14", 'lube/heap.cpp', '        for (int i=0; i<mSize; i++)\n            mData.vp[i] = iHeap->mData.vp[i];', '        for (int n = mSize; n-- > 0; )\n            mData.vp[n] = iHeap->mData.vp[n];', None, 'same'),
 ("C14", 'lube/heap.cpp', '        memcpy(mData.ip, iHeap->mData.ip, mSize*sizeof(int));', '        for (int i=0; i<mSize; i++)\n            mData.ip[i] = iHeap->mData.ip[i];', None, 'same'),
 ("C14", 'lube/heap.cpp', '        memcpy(mData.ip, iHeap->mData.ip, mSize*sizeof(int));', '        for (int i=0; i<mSize-1; i++)\n            mData.ip[i] = iHeap->mData.ip[i];', None, 'bug'),
 ("C14", 'lube/heap.cpp', '        memcpy(mData.ip, iHeap->mData.ip, mSize*sizeof(int));', '        memmove(mData.ip, iHeap->mData.ip, 4*static_cast<size_t>(iSize));', None, 'same'),
 ("C14", 'lube/heap.cpp', '    if (!iAllocOnly)\n        copy(', '    if (iAllocOnly)\n        return;\n    copy(', None, 'same'),
 ("C14", 'lube/heap.cpp', '    if (!iAllocOnly)\n        copy(', '    if (iAllocOnly)\n        copy(', None, 'bug'),
 ("C14", 'lube/heap.cpp', '    mType = iHeap.type();\n    resize(iHeap.size());', '    mType = iHeap.type();\n    resize(iHeap.dim());', None, 'bug'),
 ("C14", 'lube/view.cpp', '    mHeap = new Heap(*iHeap.view(), iAllocOnly);', '    mHeap = new Heap(*iHeap.view(), true);', None, 'bug'),
 ("C14", 'lube/view.cpp', '    mHeap = new Heap(*iHeap.view(), iAllocOnly);', '    mHeap = iHeap.view();', None, 'bug'),
 ("C14", 'lube/view.cpp', '    copy(reinterpret_cast<const Heap*>(&iHeap), mSize);', '    if (!iAllocOnly)\n        copy(reinterpret_cast<const Heap*>(&iHeap), mSize);', None, 'bug'),
 ("C14", 'lube/view.cpp', '    Heap::resize(iHeap.dim()*2+1);\n    mHeap = new', '    Heap::resize(iHeap.dim()*2);\n    mHeap = new', None, 'bug'),
 ("C14", 'lube/var.cpp', '        r.attach(new View(*heap(), iAllocOnly));', '        r.attach(new Heap(*heap(), iAllocOnly));', None, 'bug'),
 ("C14", 'lube/var.cpp', '        r.attach(new Heap(*heap(), iAllocOnly));', '        r.attach(new Heap(*heap(), true));', None, 'bug'),
 ("C14", 'lube/heap.cpp', '    mType = (iType == TYPE_ARRAY) ? TYPE_VAR : iType;', '    mType = iType;', None, 'bug'),
 ("C14", 'lube/heap.cpp', '    mType = TYPE_CDOUBLE;\n    append(iSize, iData);', '    mType = TYPE_CFLOAT;\n    append(iSize, iData);', None, 'bug'),
 # C13
 ("C13", 'lube/var.cpp', '        return (get<long>() < iVar.get<long>());', '        return (get<int>() < iVar.get<int>());', None, 'bug'),
 ("C13", 'lube/var.cpp', '        return (get<long>() < iVar.get<long>());', '        return (iVar.get<long>() > get<long>());', None, 'same'),
 ("C13", 'lube/var.cpp', '        return (get<long>() < iVar.get<long>());', '        return (get<long>() <= iVar.get<long>());', None, 'bug'),
 ("C13", 'lube/var.cpp', '        return (get<double>() != iVar.get<double>());', '        return !(get<double>() == iVar.get<double>());', None, 'same'),
 ("C13", 'lube/var.cpp', '        return (get<cdouble>() != iVar.get<cdouble>());', '        return (get<cdouble>().real() != iVar.get<cdouble>().real());', None, 'bug'),
 ("C13", 'lube/var.cpp', '        return (get<cdouble>() != iVar.get<cdouble>());', '        return get<cdouble>().real() != iVar.get<cdouble>().real() || get<cdouble>().imag() != iVar.get<cdouble>().imag();', None, 'same'),
 ("C13", 'lube/var.cpp', '    if (a != b)\n        return a < b;\n    if (iA.real() != iB.real())\n        return iA.real() < iB.real();\n    return iA.imag() < iB.imag();', '    return a < b;', None, 'bug'),
 ("C13", 'lube/var.cpp', '    return iA.imag() < iB.imag();', '    return iA.imag() > iB.imag();', None, 'same'),
 ("C13", 'lube/var.cpp', '    return iA.imag() < iB.imag();', '    return iA.imag() != iB.imag();', None, 'bug'),
 ("C13", 'lube/var.cpp', '    if (type() != iVar.type())\n        return (type() < iVar.type());', '    if (type() != iVar.type())\n        return false;', None, 'bug'),
 ("C13", 'lube/var.cpp', '    if (type() != iVar.type())\n        return (type() < iVar.type());', '    if (type() != iVar.type())\n        return (type() > iVar.type());', None, 'same'),
 ("C13", 'lube/var.cpp', '            return !heap() && iVar.heap();', '            return heap() && !iVar.heap();', None, 'bug'),
 ("C13", 'lube/var.cpp', '            return !heap() && iVar.heap();', '            return iVar.heap();', None, 'same'),
 ("C13", 'lube/var.cpp', '    if (size() != iVar.size())\n        return true;\n    switch', '    switch', None, 'bug'),
 ("C13", 'lube/var.cpp', '            return heap() != iVar.heap();', '            return true;', None, 'bug'),
 ("C13", 'lube/var.cpp', '        return heap()->lt(iVar.heap());', '        return iVar.heap()->lt(heap());', None, 'bug'),
 ("C13", 'lube/var.cpp', '        return heap()->neq(iVar.heap());', '        return iVar.heap()->neq(heap());', None, 'same'),
 ("C13", 'lube/var.h', 'return !(*this > iVar); };', 'return (*this < iVar); };', None, 'bug'),
 ("C13", 'lube/var.h', 'return !(*this > iVar); };', 'return (*this < iVar) || (*this == iVar); };', None, 'same'),
 ("C13", 'lube/var.h', 'bool operator >(var iVar) const { return iVar < *this; };', 'bool operator >(var iVar) const { return !(*this < iVar); };', None, 'bug'),
 ("C13", 'lube/heap.cpp', '            if (key(i) != iHeap->key(i))\n                return true;\n    for', '            if (key(i) != iHeap->key(i))\n                return true;\n    if (!pairs) for', None, 'bug'),
 ("C13", 'lube/heap.cpp', '    for (int i=0; i<size(); i++)\n        if (at(i) != iHeap->at(i))', '    for (int i=0; i<size()-1; i++)\n        if (at(i) != iHeap->at(i))', None, 'bug'),
 ("C13", 'lube/heap.cpp', '    for (int i=0; i<size(); i++)\n        if (at(i) != iHeap->at(i))', '    for (int i=1; i<size(); i++)\n        if (at(i) != iHeap->at(i))', None, 'bug'),
 ("C13", 'lube/heap.cpp', '    for (int i=0; i<size(); i++)\n        if (at(i) != iHeap->at(i))', '    for (int i=size()-1; i>=0; i--)\n        if (!(at(i) == iHeap->at(i)))', None, 'same'),
 ("C13", 'lube/heap.cpp', '    for (int i=0; i<size(); i++)\n        if (at(i) != iHeap->at(i))', '    for (int i=0; i<mSize; i++)\n        if (at(i) != iHeap->at(i))', None, 'bug'),
 ("C13", 'lube/heap.cpp', '        if (at(i) < iHeap->at(i))\n            return true;\n        if (iHeap->at(i) < at(i))\n            return false;', '        if (at(i) < iHeap->at(i))\n            return true;', None, 'bug'),
 ("C13", 'lube/heap.cpp', '        if (at(i) < iHeap->at(i))\n            return true;\n        if (iHeap->at(i) < at(i))\n            return false;', '        var x = at(i);\n        var y = iHeap->at(i);\n        if (x != y)\n            return x < y;', None, 'same'),
 ("C13", 'lube/heap.cpp', '        if (at(i) < iHeap->at(i))\n            return true;\n        if (iHeap->at(i) < at(i))\n            return false;', '        if (at(i) != iHeap->at(i))\n            return iHeap->at(i) < at(i);', None, 'bug'),
 ("C13", 'lube/heap.cpp', '        if (pairs && iHeap->key(i) < key(i))\n            return false;\n', '', None, 'bug'),
 ("C13", 'lube/heap.cpp', '    return size() < iHeap->size();\n}', '    return size() <= iHeap->size();\n}', None, 'bug'),
 ("C13", 'lube/heap.cpp', '    for (int i=0; i<std::min(size(), iHeap->size()); i++)', '    for (int i=0; i<std::min(size(), iHeap->size())-1; i++)', None, 'bug'),
 ("C13", 'lube/heap.cpp', '    for (int i=0; i<std::min(size(), iHeap->size()); i++)', '    for (int i=0; i<size() && i<iHeap->size(); i++)', None, 'same'),
 ("C13", 'lube/heap.cpp', '        return c ? c < 0 : size() < iHeap->size();', '        return c <= 0 && size() < iHeap->size();', None, 'bug'),
 ("C13", 'lube/heap.cpp', '        return c ? c < 0 : size() < iHeap->size();', '        if (c == 0)\n            return iHeap->size() > size();\n        return c < 0;', None, 'same'),
 ("C13", 'lube/heap.cpp', '        int n = std::min(size(), iHeap->size());\n        int c', '        int n = size();\n        int c', None, 'bug'),
 ("C13", 'lube/heap.cpp', '        return !pairs;', '        return false;', None, 'bug'),
 ("C13", 'lube/heap.cpp', '        return !pairs;', '        return pairs;', None, 'same'),
 ("C13", 'lube/heap.cpp', '    if (pairs != (iHeap->type() == TYPE_PAIR))\n        return true;', '    if (pairs && iHeap->type() != TYPE_PAIR)\n        return true;', None, 'bug'),
 # C12
 ("C12", 'lube/var.cpp', '            lo = pos+1;\n        else\n            hi = pos;', '            lo = pos+1;\n        else if (x == iData) return pos;\n        else\n            hi = pos;', None, 'same'),
 ("C12", 'lube/var.cpp', '        if (x < iData)\n            lo = pos+1;', '        if (x <= iData)\n            lo = pos+1;', None, 'bug'),
 ("C12", 'lube/var.cpp', '        if (x < iData)\n            lo = pos+1;\n        else\n            hi = pos;', '        if (iData <= x)\n            hi = pos;\n        else\n            lo = pos+1;', None, 'same'),
 ("C12", 'lube/var.cpp', '        int pos = (hi-lo)/2 + lo;', '        int pos = (hi+lo)/2;', None, 'same'),
 ("C12", 'lube/var.cpp', '        int pos = (hi-lo)/2 + lo;', '        int pos = lo + ((hi-lo) >> 1);', None, 'same'),
 ("C12", 'lube/var.cpp', '    int hi = size();\n    bool p', '    int hi = size()-1;\n    bool p', None, 'bug'),
 ("C12", 'lube/var.cpp', '    while (lo != hi)\n', '    while (lo < hi)\n', None, 'same'),
 ("C12", 'lube/var.cpp', '    while (lo != hi)\n', '    while (lo+1 < hi)\n', None, 'bug'),
 ("C12", 'lube/var.cpp', '            hi = pos;\n    }\n    return hi;', '            hi = pos;\n    }\n    return lo;', None, 'same'),
 ("C12", 'lube/var.cpp', '            hi = pos;\n    }\n    return hi;', '            hi = pos-1;\n    }\n    return lo;', None, 'bug'),
 ("C12", 'lube/var.cpp', '        (heap() && this->atype<pair>());', '        false;', None, 'bug'),
 ("C12", 'lube/var.cpp', '    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )\n        v.insert', '    if ( (index < v.size()) && (v.heap()->key(index) != iVar) )\n        v.insert', None, 'bug'),
 ("C12", 'lube/var.cpp', '    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )\n        v.insert', '    if ( (index >= v.size()) || (v.heap()->at(index) != iVar) )\n        v.insert', None, 'bug'),
 ("C12", 'lube/var.cpp', '    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )\n        v.insert', '    if ( !(index < v.size() && v.heap()->key(index) == iVar) )\n        v.insert', None, 'same'),
 ("C12", 'lube/var.cpp', '        v.insert(iVar, index);\n    return v.reference(index);', '        v.insert(iVar, 0);\n    return v.reference(index);', None, 'bug'),
 ("C12", 'lube/var.cpp', '        v.insert(iVar, index);\n    return v.reference(index);', '        v.insert(iVar, index);\n    return v.reference(v.size()-1);', None, 'bug'),
 ("C12", 'lube/var.cpp', '        v.attach(new Heap(0, TYPE_PAIR));', '        v.attach(new Heap(1, TYPE_PAIR));', None, 'bug'),
 ("C12", 'lube/var.cpp', '        v.attach(new Heap(0, TYPE_PAIR));', '        v.attach(new Heap(0, TYPE_VAR));', None, 'bug'),
 ("C12", 'lube/var.cpp', '    if (!iVar)\n        return nil;\n    int index = v.binary', '    int index = v.binary', None, 'bug'),
 ("C12", 'lube/var.cpp', '            return v[iVar.cast<int>()];', '            return v[0];', None, 'bug'),
 ("C12", 'lube/var.cpp', '    for (int i=0; i<size(); i++)\n    {\n        int p = r.binary', '    for (int i=1; i<size(); i++)\n    {\n        int p = r.binary', None, 'bug'),
 ("C12", 'lube/var.cpp', '        int p = r.binary(at(i));\n        r.insert(at(i), p);', '        var x = at(i);\n        r.insert(x, r.binary(x));', None, 'same'),
 ("C12", 'lube/var.cpp', '        int p = r.binary(at(i));', '        int p = binary(at(i));', None, 'bug'),
 ("C12", 'lube/var.cpp', '        r.insert(at(i), p);', '        r.insert(at(i), 0);', None, 'bug'),
 ("C12", 'lube/var.cpp', '        if ( (index < size()) && (heap()->key(index) == iVar) )\n            return index;', '        if (index < size())\n            return index;', None, 'bug'),
 ("C12", 'lube/var.cpp', '        if ( (index < size()) && (heap()->key(index) == iVar) )\n            return index;', '        if (index >= size() || heap()->key(index) != iVar)\n            return -1;\n        return index;', None, 'same'),
 ("C12", 'lube/var.cpp', '    if ( (index >= size()) || (heap()->key(index) != iVar) )\n        return nil;', '    if ( (index >= size()) || (heap()->key(index) < iVar) )\n        return nil;', None, 'bug'),
 ("C12", 'lube/var.cpp', '    if ( (index >= size()) || (heap()->key(index) != iVar) )\n        return nil;', '    if ( (index > size()) || (heap()->key(index) != iVar) )\n        return nil;', None, 'bug'),
 ("C12", 'lube/var.cpp', '    if ( (index >= size()) || (heap()->key(index) != iVar) )\n        return nil;\n    return reference(index);', '    if ( (index < size()) && (heap()->key(index) == iVar) )\n        return reference(index);\n    return nil;', None, 'same'),
 # C05 C06
 ('C05', 'lube/math.cpp', 'COMPLEX_UNARY_FUNCTOR(Sin,sin)', 'COMPLEX_UNARY_FUNCTOR(Sin,sinh)', None, 'bug'),
 ('C05', 'lube/math.cpp', 'COMPLEX_UNARY_FUNCTOR(Norm,norm)', 'COMPLEX_UNARY_FUNCTOR(Norm,abs)', None, 'bug'),
 ('C05', 'lube/math.cpp', '            oVar = std::f(iVar.get<cdouble>());                         \\', '            oVar = std::f(cfloat(iVar.get<cdouble>()));                         \\', None, 'bug'),
 ('C05', 'lube/math.cpp', '            oVar = std::f(iVar.get<cfloat>());                          \\', '            oVar = std::f(iVar.get<cfloat>().real());                          \\', None, 'bug'),
 ('C05', 'lube/math.cpp', '            throw error("#F##::scalar(): Unknown type");                \\', '            break;                \\', None, 'bug'),
 ('C05', 'lube/math.cpp', '        case TYPE_CFLOAT:                                               \\\n            oVar = std::f(iVar.get<cfloat>());                          \\', '        case TYPE_CFLOAT:                                               \\\n            { cfloat x = iVar.get<cfloat>(); auto y = std::f(x); oVar = y; }                         \\', None, 'same'),
 ('C05', 'lube/math.cpp', '    case TYPE_DOUBLE:\n    case TYPE_CDOUBLE:\n        r = view(s, 0.0);\n        break;\n    }\n    return r;\n}\n\n\n/**\n * Allocator where the output retains', '    case TYPE_DOUBLE:\n        r = view(s, 0.0);\n        break;\n    case TYPE_CDOUBLE:\n        r = view(s, 0.0f);\n        break;\n    }\n    return r;\n}\n\n\n/**\n * Allocator where the output retains', None, 'bug'),
 ('C06', 'lube/math.cpp', '            blas::asum(size, iVar.ptr<double>(iOffsetI));', '            blas::asum(size, iVar.ptr<double>());', None, 'bug'),
 ('C06', 'lube/math.cpp', '            blas::asum(size, iVar.ptr<double>(iOffsetI));', '            blas::asum(iVar.size(), iVar.ptr<double>(iOffsetI));', None, 'bug'),
 ('C06', 'lube/math.cpp', '        *(oVar.ptr<cfloat>(iOffsetO)) =', '        *(oVar.ptr<cfloat>(iOffsetI)) =', None, 'bug'),
 ('C06', 'lube/math.cpp', '    for (int i=0; i<iSize; i++)\n        sum += iPointer[i];\n    return sum;', '    while (iSize-- > 0)\n        sum += *iPointer++;\n    return sum;', None, 'same'),
 ('C06', 'lube/math.cpp', '    for (int i=0; i<iSize; i++)\n        sum += iPointer[i];\n    return sum;', '    for (int i=1; i<iSize; i++)\n        sum += iPointer[i];\n    return sum;', None, 'bug'),
 ('C06', 'lube/math.cpp', '            blas::iamax(size, iVar.ptr<cfloat>(iOffsetI));', '            blas::iamax(size-1, iVar.ptr<cfloat>(iOffsetI));', None, 'bug'),
 ('C06', 'lube/math.cpp', '        s[s.size()-1] = iVar2.shape(1);', '        s[s.size()-1] = iVar2.shape(0);', None, 'bug'),
 ('C06', 'lube/math.cpp', '                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),\n                1.0,', '                iVar1.shape(-2), iVar2.shape(1), iVar2.shape(1),\n                1.0,', None, 'bug'),
 ('C06', 'lube/math.cpp', '                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),\n                1.0,', '                iVar1.shape(-2), iVar2.shape(1), iVar2.shape(0),\n                1.0,', None, 'same'),
 ('C06', 'lube/math.cpp', '                1.0,\n                iVar1.ptr<double>(iOffset1),\n                iVar2.ptr<double>(iOffset2),\n                0.0,', '                1.0,\n                iVar1.ptr<double>(iOffset1),\n                iVar2.ptr<double>(iOffset2),\n                1.0,', None, 'bug'),
 ('C06', 'lube/math.cpp', '        for (int j=0; j<=i; j++)', '        for (int j=0; j<i; j++)', None, 'bug'),
 ('C06', 'lube/math.cpp', '            oData[j+1] -= iData[i]*tmp0;', '            oData[j+1] += iData[i]*tmp0;', None, 'bug'),
 ('C06', 'lube/math.cpp', '    for (int r=1; r<size; r++)\n        a(r, size-1) = 0.0;\n', '', None, 'bug'),
 ('C06', 'lube/math.cpp', '        std::sort(iVar.ptr<long>(), iVar.ptr<long>()+size);', '        std::sort(iVar.ptr<long>(), iVar.ptr<long>()+size-1);', None, 'bug'),
 ('C06', 'lube/math.cpp', '        sum += iVar[v].shape(-1);', '        sum += iVar[0].shape(-1);', None, 'bug'),
 ('C06', 'lube/math.cpp', '        if (iVar[v].dim() != dim)\n            throw error("Concatenate: dimensions differ");\n', '', None, 'bug'),
 ('C06', 'lube/math.cpp', '        for (int d=0; d<dim-1; d++)\n            if (iVar[v].shape(d) != iVar[0].shape(d))\n                throw error("Concatenate: dimensions differ");', '        for (int d=0; d<dim-2; d++)\n            if (iVar[v].shape(d) != iVar[0].shape(d))\n                throw error("Concatenate: dimensions differ");', None, 'bug'),
 ('C06', 'lube/math.cpp', '        for (int d=0; d<dim-1; d++)\n            if (iVar[v].shape(d) != iVar[0].shape(d))\n                throw error("Concatenate: dimensions differ");', '        for (int d=dim-2; d>=0; d--)\n            if (iVar[0].shape(d) != iVar[v].shape(d))\n                throw error("Concatenate: dimensions differ");', None, 'same'),
 ('C06', 'lube/math.cpp', '        for (int d=0; d<dim-1; d++)\n            if (iVar[v].shape(d) != iVar[0].shape(d))\n                throw error("Concatenate: dimensions differ");', '', None, 'bug'),
 ('C06', 'lube/math.cpp', '                s, iVar[i].ptr<cfloat>(), oVar.ptr<cfloat>(sum)', '                s, iVar[i].ptr<cfloat>(), oVar.ptr<cfloat>(s*i)', None, 'bug'),
 ('C06', 'lube/math.cpp', '            oVar(i) = cdouble(re[i].get<double>(), im[i].get<double>());', '            oVar(i) = cdouble(re[i].get<double>(), re[i].get<double>());', None, 'bug'),
 ('C06', 'lube/math.cpp', '    if (info != 0)\n        throw error("Roots::vector: eigenvalues not found");\n', '', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', 'mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;', 'mImpl->oSize = iInverse ? iSize : iSize / 2;', 0, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', 'mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;', 'mImpl->oSize = iSize / 2 + 1;', 1, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', 'mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;', 'if (iInverse) mImpl->oSize = iSize; else mImpl->oSize = 1 + iSize / 2;', 1, 'same'),
 ('C15', 'lube/dft-mkl.cpp', '&mImpl->handle, DFTI_DOUBLE, DFTI_COMPLEX, 1, iSize', '&mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, iSize', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '&mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, iSize', '&mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, iSize', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', 'DFTI_PLACEMENT, DFTI_NOT_INPLACE', 'DFTI_PLACEMENT, DFTI_INPLACE', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    r = DftiSetValue(mImpl->handle, DFTI_PLACEMENT, DFTI_NOT_INPLACE);\n    dftiCheck(r);\n\n    r = DftiCommitDescriptor(mImpl->handle);\n    dftiCheck(r);', '    r = DftiCommitDescriptor(mImpl->handle);\n    dftiCheck(r);\n    r = DftiSetValue(mImpl->handle, DFTI_PLACEMENT, DFTI_NOT_INPLACE);\n    dftiCheck(r);', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    r = DftiCommitDescriptor(mImpl->handle);\n    dftiCheck(r);', '    r = DftiCommitDescriptor(mImpl->handle);', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    r = DftiCommitDescriptor(mImpl->handle);\n    dftiCheck(r);', '    dftiCheck(DftiCommitDescriptor(mImpl->handle));', None, 'same'),
 ('C15', 'lube/dft-mkl.cpp', '        ? iSize / 2 + 1 : iSize;', '        ? iSize : iSize;', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '                                || mImpl->forwardType.atype<double>())', '                                )', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    ~DFTImpl() { if (handle) DftiFreeDescriptor(&handle); }', '    ~DFTImpl() { }', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    delete mImpl;\n', '    if (mImpl->handle) DftiFreeDescriptor(&mImpl->handle);\n    delete mImpl;\n', None, 'same'),
 ('C15', 'lube/dft-mkl.cpp', '    ~DFTImpl() { if (handle) DftiFreeDescriptor(&handle); }', '    ~DFTImpl() { if (handle) { DFTI_DESCRIPTOR_HANDLE h = handle; DftiFreeDescriptor(&h); h = handle; DftiFreeDescriptor(&h); } }', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    r = view(s, mImpl->inverse ? mImpl->forwardType : mImpl->inverseType);', '    r = view(s, mImpl->inverse ? mImpl->inverseType : mImpl->inverseType);', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    s[s.size()-1] = mImpl->oSize;', '    s[0] = mImpl->oSize;', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    s[s.size()-1] = mImpl->oSize;', '    s[s.size()-1] = mImpl->iSize;', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    s[s.size()-1] = mImpl->oSize;', '    int last = s.size()-1;\n    s[last] = mImpl->oSize;', None, 'same'),
 ('C15', 'lube/dft-mkl.cpp', '    if (iVar.shape(-1) != mImpl->iSize)\n        throw error("DFTBase::scalar: wrong input size");\n', '', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    if (oVar.shape(-1) != mImpl->oSize)\n        throw', '    if (oVar.shape(-1) < mImpl->oSize)\n        throw', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    if (oVar.shape(-1) != mImpl->oSize)\n        throw', '    if (oVar.shape(oVar.dim()-1) != mImpl->oSize)\n        throw', None, 'same'),
 ('C15', 'lube/dft-mkl.cpp', '    if (iVar.atype() != (mImpl->inverse\n                         ? mImpl->inverseType.atype()\n                         : mImpl->forwardType.atype()\n        ))\n        throw error("DFTBase::scalar: wrong input type");\n', '', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    if (mImpl->inverse)\n        oVar /= mImpl->oSize;', '    if (mImpl->inverse)\n        oVar /= mImpl->iSize;', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    if (mImpl->inverse)\n        oVar /= mImpl->oSize;', '    oVar /= mImpl->oSize;', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    broadcast(iVar, oVar);\n\n    // MKL does not include the divide by N on the inverse\n    if (mImpl->inverse)\n        oVar /= mImpl->oSize;', '    if (mImpl->inverse)\n        oVar /= mImpl->oSize;\n    broadcast(iVar, oVar);\n', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '                    iVar.ptr<cdouble>(iOffsetI),\n                    oVar.ptr<double>(iOffsetO)', '                    iVar.ptr<cdouble>(iOffsetI),\n                    oVar.ptr<double>(iOffsetI)', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '                    iVar.ptr<cfloat>(iOffsetI),\n                    oVar.ptr<float>(iOffsetO)', '                    iVar.ptr<float>(iOffsetI),\n                    oVar.ptr<float>(iOffsetO)', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '                    iVar.ptr<cfloat>(iOffsetI),\n                    oVar.ptr<float>(iOffsetO)', '                    iVar.ptr<float>(2*iOffsetI),\n                    oVar.ptr<float>(iOffsetO)', None, 'same'),
 ('C15', 'lube/dft-mkl.cpp', '                r = DftiComputeForward(\n                    mImpl->handle,\n                    iVar.ptr<double>(iOffsetI),', '                r = DftiComputeBackward(\n                    mImpl->handle,\n                    iVar.ptr<double>(iOffsetI),', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '            default:\n                throw error("DFTBase::vector(): unknown type");\n            }\n    dftiCheck(r);', '            default:\n                throw error("DFTBase::vector(): unknown type");\n            }\n', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '        throw error("DFTBase::vector(): not implemented");\n', '', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    default:\n        throw error("DFTBase::DFTBase: Unknown type");', '    case TYPE_LONG:\n        mImpl->oSize = iSize;\n        r = DftiCreateDescriptor(\n            &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, iSize\n        );\n        break;\n    default:\n        throw error("DFTBase::DFTBase: Unknown type");', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '    mDim = 1;', '    mDim = 2;', None, 'bug'),
 ('C15', 'lube/dft.h', ': DFTBase(iSize, true, iForwardType) {};', ': DFTBase(iSize, false, iForwardType) {};', None, 'bug'),
 ('C15', 'lube/dft.h', '        IDFT(int iSize, var iForwardType=0.0f)', '        IDFT(int iSize, var iForwardType=0.0)', None, 'bug'),
 ('C16', 'lube/sndfile.cpp', '    SNDHandle snd(sf_open(iFile.str(), SFM_READ, &sfInfo), sf_close);', '    SNDFILE* raw = sf_open(iFile.str(), SFM_READ, &sfInfo);\n    SNDHandle snd(raw, sf_close);', None, 'same'),
 ('C16', 'lube/sndfile.cpp', '    snd.reset();\n    if (nGot', '    sf_close(snd.get());\n    if (nGot', None, 'bug'),
 ('C16', 'lube/sndfile.cpp', '    snd.reset();\n    if (nGot', '    sf_close(snd.release());\n    if (nGot', None, 'same'),
 ('C16', 'lube/sndfile.cpp', '    snd.reset();\n    if (nGot', '    snd.release();\n    if (nGot', None, 'bug'),
 ('C16', 'lube/sndfile.cpp', '    snd.reset();\n    if (nGot', '    if (nGot', None, 'same'),
 ('C16', 'lube/sndfile.cpp', '    snd.reset();\n    if (frames', '    if (frames != n)\n        snd.release();\n    snd.reset();\n    if (frames', None, 'bug'),
 ('C16', 'lube/sndfile.cpp', '    if (!snd)\n        throw error("sndfile::write', '    if (sfInfo.channels < 0)\n        throw error("sndfile::write', None, 'bug'),
 ('C16', 'lube/module.cpp', '        dlclose(mHandle);\n        throw error(e);', '        throw error(e);', None, 'bug'),
 ('C16', 'lube/module.cpp', '    if (!mHandle)\n        throw error("module::module(): dlopen failed");\n', '', None, 'same'),
 ('C16', 'lube/module.cpp', '    for (size_t i=0; i<mInstance.size(); i++)\n        delete mInstance[i];\n    dlclose(mHandle);', '    dlclose(mHandle);\n    for (size_t i=0; i<mInstance.size(); i++)\n        delete mInstance[i];', None, 'bug'),
 ('C16', 'lube/module.cpp', '    for (size_t i=0; i<mInstance.size(); i++)', '    for (size_t i=1; i<mInstance.size(); i++)', None, 'bug'),
 ('C16', 'lube/module.cpp', '    for (size_t i=0; i<mInstance.size(); i++)\n        delete mInstance[i];', '    for (Module* i : mInstance)\n        delete i;', None, 'same'),
 ('C16', 'lube/module.cpp', '    for (size_t i=0; i<mInstance.size(); i++)\n        delete mInstance[i];', '    for (size_t i=mInstance.size(); i>0; i--)\n        delete mInstance[i-1];', None, 'same'),
 ('C16', 'lube/module.cpp', '        delete mInstance[i];', '        delete mInstance[0];', None, 'bug'),
 ('C16', 'lube/module.cpp', '    for (size_t i=0; i<mInstance.size(); i++)\n        delete mInstance[i];\n', '', None, 'bug'),
 ('C16', 'lube/module.cpp', '    mInstance.push_back(inst);\n    return *(mInstance.back());', '    return *inst;', None, 'bug'),
 ('C16', 'lube/module.cpp', '    mInstance.push_back(inst);\n    return *(mInstance.back());', '    mInstance.push_back(inst);\n    return *inst;', None, 'same'),
 ('C16', 'lube/module.cpp', '    dlclose(mHandle);\n}', '    if (mInstance.size())\n        dlclose(mHandle);\n}', None, 'bug'),
 ('C16', 'lube/module.h', '        module(const module&) = delete;\n        module& operator =(const module&) = delete;\n', '', None, 'bug'),
 ('C16', 'lube/module.h', '        module& operator =(const module&) = delete;\n', '', None, 'bug'),
 ('C16', 'lube/xmlfile.cpp', '    XML_ParserFree(mParser);', '', None, 'bug'),
 ('C16', 'lube/xmlfile.cpp', '    XML_ParserFree(mParser);', '    if (mStack.size() == 0)\n        XML_ParserFree(mParser);', None, 'bug'),
 ('C16', 'lube/xmlfile.cpp', '    XML_ParserFree(mParser);', '    if (mParser)\n        XML_ParserFree(mParser);\n    mParser = 0;', None, 'same'),
 ('C16', 'lube/xmlfile.cpp', '        Expat(const Expat&) = delete;\n        Expat& operator =(const Expat&) = delete;\n', '', None, 'bug'),
 ('C16', 'lube/xmlfile.cpp', '    if (!mParser)\n        throw error("xmlfile: Cannot create parser");\n', '', None, 'bug'),
 ('C16', 'lube/xmlfile.cpp', '    if (mStack.size() != 0)\n        throw', '    XML_ParserFree(mParser);\n    if (mStack.size() != 0)\n        throw', None, 'bug'),
 ('C16', 'lube/xmlfile.cpp', '    if (mStack.size() != 0)\n        throw', '    XML_ParserFree(mParser);\n    mParser = 0;\n    if (mStack.size() != 0)\n        throw', None, 'same'),
 ('C16', 'lube/gnuplot.cpp', '    pclose(mStream);', '    fclose(mStream);', None, 'bug'),
 ('C16', 'lube/gnuplot.cpp', '    pclose(mStream);', '    pclose(mStream);\n    pclose(mStream);', None, 'bug'),
 ('C16', 'lube/gnuplot.cpp', '        gnuplot(const gnuplot&) = delete;\n        gnuplot& operator =(const gnuplot&) = delete;\n', '', None, 'bug'),
 ('C16', 'lube/gnuplot.cpp', '    if (s < 0 || n < 0)\n        throw', '    if (s < 0 || n < 0)\n        pclose(mStream);\n    if (s < 0 || n < 0)\n        throw', None, 'bug'),
 ('C16', 'lube/curl.cpp', '    curl_easy_cleanup(mHandle);\n', '', None, 'bug'),
 ('C16', 'lube/curl.cpp', 'CURLOPT_URL, url)', 'CURLOPT_URL, iURL.str())', None, 'bug'),
 ('C16', 'lube/curl.cpp', '        throw error(err);', '        curl_easy_cleanup(mHandle);\n        throw error(err);', None, 'bug'),
 ('C16', 'lube/curl.cpp', '    Easy easy(iURL);\n    var stuff = easy.perform();\n    return stuff;', '    Easy* easy = new Easy(iURL);\n    var stuff = easy->perform();\n    delete easy;\n    return stuff;', None, 'bug'),
 ('C16', 'lube/curl.cpp', '    Easy easy(iURL);\n    var stuff = easy.perform();\n    return stuff;', '    return Easy(iURL).perform();', None, 'same'),
 ('C16', 'lube/curl.cpp', '        Easy(const Easy&) = delete;\n        Easy& operator =(const Easy&) = delete;\n', '', None, 'bug'),
 ('C16', 'lube/string.cpp', '    delete reinterpret_cast<boost::regex*>(mRE);', '', None, 'bug'),
 ('C16', 'lube/regex.h', '        RegExFunctor(const RegExFunctor&) = delete;\n        RegExFunctor& operator =(const RegExFunctor&) = delete;\n', '', None, 'bug'),
 ('C17', 'lube/txtfile.cpp', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (is.fail())', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (is.eof())', None, 'bug'),
 ('C17', 'lube/txtfile.cpp', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (is.fail())', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (!is)', None, 'same'),
 ('C17', 'lube/txtfile.cpp', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (is.fail())', '    std::ifstream is;\n    is.open(iFile.str());\n    if (!is.is_open())', None, 'same'),
 ('C17', 'lube/txtfile.cpp', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (is.fail())', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (!is.good())', None, 'same'),
 ('C17', 'lube/txtfile.cpp', '    if (is.bad())\n        throw error("txtfile::read(): Read failed");\n', '', None, 'bug'),
 ('C17', 'lube/txtfile.cpp', '    if (is.bad())', '    if (!is.eof())', None, 'same'),
 ('C17', 'lube/txtfile.cpp', '    os.close();\n    if (os.fail())', '    if (os.fail())', None, 'same'),
 ('C17', 'lube/txtfile.cpp', '        os << iVar.at(i) << std::endl;\n    os.close();\n    if (os.fail())', "        os << iVar.at(i) << '\\n';\n    if (os.fail())", None, 'bug'),
 ('C17', 'lube/txtfile.cpp', '    os.close();\n    if (os.fail())', '    os.close();\n    if (os.bad())', None, 'bug'),
 ('C17', 'lube/txtfile.cpp', '    os.close();\n    if (os.fail())\n        throw error("txtfile::write(): Write failed");', '    if (os.fail())\n        throw error("txtfile::write(): Write failed");\n    os << std::flush;\n    os.close();', None, 'bug'),
 ('C17', 'lube/txtfile.cpp', '    os.close();\n    if (os.fail())\n        throw error("txtfile::write(): Write failed");', '    os.close();\n    if (os)\n        return;\n    throw error("txtfile::write(): Write failed");', None, 'same'),
 ('C17', 'lube/inifile.cpp', '    if (os.fail())\n        throw error("inifile::write(): Write failed");\n', '', None, 'bug'),
 ('C17', 'lube/inifile.cpp', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (is.fail())\n        throw error("inifile::read(): Open failed");', '    std::ifstream is(iFile.str(), std::ifstream::in);\n    if (is.fail())\n        return nil;', None, 'bug'),
 ('C17', 'lube/gedfile.cpp', '    if (mInStream.fail())\n        throw error("GEDCOM::loadFile(): Open failed");\n', '', None, 'bug'),
 ('C17', 'lube/gedfile.cpp', '    else\n        throw error("GEDCOM::readLine(): Premature end of file");', '    else\n        return 0;', None, 'bug'),
 ('C17', 'lube/gedfile.cpp', '    if (line.getline(mInStream))\n        mField = line.split(" ");\n    else\n        throw error("GEDCOM::readLine(): Premature end of file");', '    line.getline(mInStream);\n    if (!line)\n        throw error("GEDCOM::readLine(): Premature end of file");\n    mField = line.split(" ");', None, 'same'),
 ('C17', 'lube/graph.cpp', '    ofs.close();\n    if (ofs.fail())\n        throw error("Graph::writeGraphViz(): Write failed");\n', '', None, 'bug'),
 ('C17', 'lube/graph.cpp', '    if (ofs.fail())\n        throw error("Graph::writeGraphViz(): Open failed");\n', '', None, 'same'),
 ('C17', 'lube/xmlfile.cpp', '    s = XML_Parse(mParser, f.str(), 0, 1);', '    s = XML_Parse(mParser, f.str(), 0, 0);', None, 'bug'),
 ('C17', 'lube/xmlfile.cpp', '    s = XML_Parse(mParser, f.str(), 0, 1);\n    if (!s)\n        throw error("xmlfile::parse(): Error!");\n', '    XML_Parse(mParser, f.str(), 0, 1);\n', None, 'bug'),
 ('C17', 'lube/xmlfile.cpp', '        s = XML_Parse(mParser, f.str(), f.size(), 0);\n        if (!s)', '        s = XML_Parse(mParser, f.str(), f.size(), 0);\n        if (s == XML_STATUS_SUSPENDED)', None, 'bug'),
 ('C17', 'lube/xmlfile.cpp', '        s = XML_Parse(mParser, f.str(), f.size(), 0);\n        if (!s)', '        s = XML_Parse(mParser, f.str(), f.size(), 0);\n        if (s == XML_STATUS_ERROR)', None, 'same'),
 ('C17', 'lube/xmlfile.cpp', '    if (is.bad())\n        throw error("xmlfile::read(): Read failed");\n', '', None, 'bug'),
 ('C17', 'lube/xmlfile.cpp', '    os << std::endl;\n    os.close();\n    if (os.fail())\n        throw error("xmlwriter::write(): Write failed");', '    os << std::endl;', None, 'bug'),
 ('C17', 'lube/xmlfile.cpp', '    os << std::endl;\n    os.close();\n    if (os.fail())', '    if (os.fail())\n        throw error("xmlwriter::write(): Write failed");\n    os << std::endl;\n    os.close();\n    if (false)', None, 'bug'),
 ('C17', 'lube/sndfile.cpp', '    if (nGot != sfInfo.frames)', '    if (nGot < 0)', None, 'bug'),
 ('C17', 'lube/sndfile.cpp', '    if (nGot != sfInfo.frames)', '    if (nGot < sfInfo.frames)', None, 'same'),
 ('C17', 'lube/sndfile.cpp', '    if (frames != n)\n        throw error("sndfile::write: Size fuckup");', '', None, 'bug'),
 ('C17', 'lube/sndfile.cpp', '    if (!snd)\n        throw error("sndfile::read: Failed to open file");', '    if (!snd)\n        return nil;', None, 'bug'),
 ('C17', 'lube/gnuplot.cpp', '    if (s < 0 || n < 0)', '    if (s < 0 && n < 0)', None, 'bug'),
 ('C17', 'lube/gnuplot.cpp', '    if (s < 0 || n < 0)', '    if (s < 0)', None, 'bug'),
 ('C17', 'lube/gnuplot.cpp', '    if (s < 0 || n < 0)', '    if (s == EOF || n == EOF)', None, 'bug'),
 ('C17', 'lube/gnuplot.cpp', '    if (!mStream)\n        throw error("gnuplot: Open failed");', '', None, 'bug'),
 ('C17', 'lube/curl.cpp', '    if (res != CURLE_OK)', '    if (res == CURLE_COULDNT_CONNECT)', None, 'bug'),
 ('C17', 'lube/curl.cpp', '    if (res != CURLE_OK)\n    {\n        var err = curl_easy_strerror(res);\n        throw error(err);\n    }\n    return mData;', '    if (res == CURLE_OK)\n        return mData;\n    var err = curl_easy_strerror(res);\n    throw error(err);', None, 'same'),
 ('C17', 'lube/module.cpp', '    if ((dle = dlerror()) != NULL)\n    {\n        var e = dle;\n        dlclose(mHandle);\n        throw error(e);\n    }', '', None, 'bug'),
 ('C17', 'lube/module.cpp', '    if ((dle = dlerror()) != NULL)\n        throw error(dle);\n    if (!mHandle)\n        throw error("module::module(): dlopen failed");', '    dle = dlerror();', None, 'bug'),
 ('C18', 'lube/string.cpp', '        op[i] = std::toupper(ip[i]);', '        op[i] = std::tolower(ip[i]);', None, 'bug'),
 ('C18', 'lube/string.cpp', '        op[i] = std::toupper(ip[i]);', "        op[i] = (ip[i] >= 'a' && ip[i] < 'z') ? ip[i] - 32 : ip[i];", None, 'bug'),
 ('C18', 'lube/string.cpp', '        op[i] = std::toupper(ip[i]);', "        op[i] = (ip[i] >= 'a' && ip[i] <= 'z') ? ip[i] - 32 : ip[i];", None, 'same'),
 ('C18', 'lube/string.cpp', '        op[i] = std::toupper(ip[i]);', '    {\n        char c = ip[i];\n        if (std::islower(c)) c = std::toupper(c);\n        op[i] = c;\n    }', None, 'same'),
 ('C18', 'lube/string.cpp', '        op[i] = std::toupper(ip[i]);', '    {\n        int c = (unsigned char)ip[i];\n        op[i] = (char)std::toupper(c);\n    }', None, 'same'),
 ('C18', 'lube/string.cpp', '        op[i] = std::toupper(ip[i]);', '        op[i] = ip[i] & ~0x20;', None, 'bug'),
 ('C18', 'lube/string.cpp', "    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::toupper", '    for (int i=0; i<iVar.size()-1; i++)\n        op[i] = std::toupper', None, 'bug'),
 ('C18', 'lube/string.cpp', "    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::toupper", '    for (int i=1; i<iVar.size(); i++)\n        op[i] = std::toupper', None, 'bug'),
 ('C18', 'lube/string.cpp', "    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::toupper(ip[i]);", '    const int n = iVar.size();\n    for (int i=n-1; i>=0; --i)\n        op[i] = std::toupper(ip[i]);', None, 'same'),
 ('C18', 'lube/string.cpp', "    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::toupper(ip[i]);", '    char* end = ip + iVar.size();\n    while (ip != end)\n        *op++ = std::toupper(*ip++);', None, 'same'),
 ('C18', 'lube/string.cpp', "    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::tolower(ip[i]);", '    for (int i=0; i<iVar.size(); i++)\n    {\n        if (!std::isupper(ip[i]))\n            continue;\n        op[i] = std::tolower(ip[i]);\n    }', None, 'bug'),
 ('C18', 'lube/string.cpp', "        oVar.resize(iVar.size());\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::tolower", '        oVar.resize(iVar.size()+1);\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        op[i] = std::tolower', None, 'bug'),
 ('C18', 'lube/string.cpp', '(isspace(ip[leading]))', "(ip[leading] == ' ')", None, 'bug'),
 ('C18', 'lube/string.cpp', '(isspace(ip[leading]))', "(ip[leading] == ' ' || (ip[leading] >= '\\t' && ip[leading] <= '\\r'))", None, 'same'),
 ('C18', 'lube/string.cpp', '(isspace(ip[leading]))', '(!isgraph(ip[leading]))', None, 'bug'),
 ('C18', 'lube/string.cpp', '(isspace(ip[is-trailing-1]))', "(isspace(ip[is-trailing-1]) || ip[is-trailing-1] == '.')", None, 'bug'),
 ('C18', 'lube/string.cpp', 'trailing < is - leading)', 'trailing < is)', None, 'bug'),
 ('C18', 'lube/string.cpp', '            op[i] = ip[i+leading];', '            op[i] = ip[i];', None, 'bug'),
 ('C18', 'lube/string.cpp', '            op[i] = ip[i+leading];', '            op[i] = ip[leading+i];', None, 'same'),
 ('C18', 'lube/string.cpp', '        for (int i=0; i<newSize; i++)\n            op[i] = ip[i+leading];', '        std::memcpy(op, ip+leading, newSize);', None, 'same'),
 ('C18', 'lube/string.cpp', '        for (int i=0; i<newSize; i++)\n            op[i] = ip[i+leading];', '        std::memcpy(op, ip, newSize);', None, 'bug'),
 ('C18', 'lube/string.cpp', '            std::memmove(op, op+leading, newSize);', '            std::memmove(op, op+leading, is-trailing-leading-1);', None, 'bug'),
 ('C18', 'lube/string.cpp', '        if (leading > 0)\n', '', None, 'same'),
 ('C18', 'lube/string.cpp', '        if (leading > 0)\n', '        if (leading > 1)\n', None, 'bug'),
 ('C18', 'lube/string.cpp', '        if (newSize != oVar.size())\n            oVar.resize(newSize);', '        if (leading > 0 && newSize != oVar.size())\n            oVar.resize(newSize);', None, 'bug'),
 ('C18', 'lube/string.cpp', '    int newSize = is - leading - trailing;', '    int newSize = is - leading - trailing;\n    if (newSize == 0) newSize = 1;', None, 'bug'),
 ('C18', 'lube/string.cpp', '    for (int i=0; i<iVar.size(); i++)\n    {\n        var ref = oVar.at(i);', '    for (int i=1; i<iVar.size(); i++)\n    {\n        var ref = oVar.at(i);', None, 'bug'),
 ('C18', 'lube/string.cpp', '        var ref = oVar.at(i);', '        var ref = oVar.at(0);', None, 'bug'),
 ('C18', 'lube/string.cpp', '    // This could be parallel!\n    for (int i=0; i<iVar.size(); i++)', '    for (int i=iVar.size()-1; i>=0; i--)', None, 'same'),
 ('C18', 'lube/string.cpp', '        broadcast(iVar, v);\n    return v;', '    {\n        v = iVar;\n        broadcast(iVar, v);\n    }\n    return v;', None, 'bug'),
 ('C18', 'lube/string.cpp', "        if (c == '\\n')", "        if (c == '\\r')", None, 'bug'),
 ('C18', 'lube/string.cpp', "        if (c == '\\n')", "        if (c == '\\n' || c == '\\f')", None, 'bug'),
 ('C18', 'lube/string.cpp', "        if (c == '\\n')", "        if (c == '\\r') continue;\n        if (c == '\\n')", None, 'bug'),
 ('C18', 'lube/string.cpp', '    resize(read);\n    return *this;', '    resize(read > 0 ? read-1 : 0);\n    return *this;', None, 'bug'),
 ('C18', 'lube/string.cpp', '    resize(read);\n    return *this;', '    if (read != size)\n        resize(read);\n    return *this;', None, 'same'),
 ('C18', 'lube/string.cpp', '        if (read == size)\n', '        if (read > size)\n', None, 'bug'),
 ('C18', 'lube/string.cpp', '            size = ((size+1)*2-1);', '            size += size;', None, 'same'),
 ('C18', 'lube/string.cpp', '            resize(size);\n            str = ptr<char>();\n        }', '            str = ptr<char>();\n        }', None, 'bug'),
 ('C18', 'lube/string.cpp', '    if (!iStream.good())\n        return clear();', '    if (iStream.bad())\n        return clear();', None, 'bug'),
 ('C18', 'lube/string.cpp', '        if (c == std::istream::traits_type::eof())\n            break;\n', '', None, 'bug'),
 ('C18', 'lube/string.cpp', '    while (!iStream.eof())\n    {', '    for (;;)\n    {', None, 'same'),
 ('C18', 'lube/string.cpp', '    while (!iStream.eof())\n    {', '    while (read < 65535)\n    {', None, 'bug'),
 ('C18', 'lube/string.cpp', '            source = p+strLen;', '            source = p+1;', None, 'bug'),
 ('C18', 'lube/string.cpp', '            int len = p-source;', '            int len = p-source+1;', None, 'bug'),
 ('C18', 'lube/string.cpp', '(r.size() >= iMax-1))\n                break;\n        }\n    r.push', '(r.size() >= iMax))\n                break;\n        }\n    r.push', None, 'bug'),
 ('C18', 'lube/string.cpp', '            if (iMax && (r.size() >= iMax-1))\n                break;\n        }\n    r.push(source);', '            if (iMax && (r.size() >= iMax-2))\n                break;\n        }\n    r.push(source);', None, 'bug'),
 ('C18', 'lube/string.cpp', '            if (iMax && (r.size() >= iMax-1))\n                break;\n        }\n    r.push(source);', '            if (iMax > 0)\n                if (r.size()+1 >= iMax)\n                    break;\n        }\n    r.push(source);', None, 'same'),
 ('C18', 'lube/string.cpp', '    r.push(source);\n\n    return r;', '    if (*source)\n        r.push(source);\n\n    return r;', None, 'bug'),
 ('C18', 'lube/string.cpp', '            var s(len, source);\n            r.push(s);\n            source', '            if (len > 0)\n            {\n                var s(len, source);\n                r.push(s);\n            }\n            source', None, 'bug'),
 ('C18', 'lube/string.cpp', '    if (strLen == 0)\n        throw', '    if (strLen < 0)\n        throw', None, 'bug'),
 ('C18', 'lube/string.cpp', '    if (iMax != 1)\n        while (', '    if (iMax > 1)\n        while (', None, 'bug'),
 ('C18', 'lube/string.cpp', '        while (*p && !std::isspace(*p)) { ++p; }', "        while (*p && *p != ' ') { ++p; }", None, 'bug'),
 ('C18', 'lube/string.cpp', '        int len = end - beg;', '        int len = end - beg - 1;', None, 'bug'),
 ('C18', 'lube/string.cpp', '    while (std::isspace(*p)) { ++p; }\n    while', "    while (*p == ' ') { ++p; }\n    while", None, 'bug'),
 ('C18', 'lube/string.cpp', '        if (len > 0)\n        {', '        if (len > 1)\n        {', None, 'bug'),
 ('C18', 'lube/string.cpp', '        if (len > 0)\n        {\n            var s(len, beg);\n            r.push(s);\n        }', '        r.push(var(len, beg));', None, 'same'),
 ('C18', 'lube/string.cpp', '        const char* end = p;\n        int len = end - beg;', '        int len = int(p - beg);', None, 'same'),
 ('C18', 'lube/string.cpp', '            r.insert(s, r.size());\n            r.insert(at(i), r.size());', '            r.insert(at(i), r.size());\n            r.insert(s, r.size());', None, 'bug'),
 ('C18', 'lube/string.cpp', '            r.insert(s, r.size());\n            r.insert(at(i), r.size());', '            r.insert(s, r.size());\n            r.insert(at(i), 0);', None, 'bug'),
 ('C18', 'lube/string.cpp', '            r.insert(s, r.size());\n            r.insert(at(i), r.size());', '            r.insert(at(i), r.size());', None, 'bug'),
 ('C18', 'lube/string.cpp', '            r.insert(s, r.size());\n            r.insert(at(i), r.size());', '            r.insert(s, r.size());\n            var e = at(i);\n            r.insert(e, r.size());', None, 'same'),
 ('C18', 'lube/string.cpp', '    for (int i=0; i<size(); i++)\n    {\n        if (i == 0)\n            r.insert(at(0));', '    for (int i=0; i<size()-1; i++)\n    {\n        if (i == 0)\n            r.insert(at(0));', None, 'bug'),
 ('C18', 'lube/string.cpp', '        if (i == 0)\n            r.insert(at(0));\n        else\n        {\n            r.insert(s, r.size());\n            r.insert(at(i), r.size());\n        }', '        if (i > 0)\n            r.insert(s, r.size());\n        r.insert(at(i), r.size());', None, 'same'),
 ('C18', 'lube/string.cpp', '        if (i == 0)\n            r.insert(at(0));\n        else\n        {\n            r.insert(s, r.size());\n            r.insert(at(i), r.size());\n        }', '        if (r.size() > 0)\n            r.insert(s, r.size());\n        r.insert(at(i), r.size());', None, 'bug'),
 ('C18', 'lube/string.cpp', '    if (atype<char>())\n        return *this;\n\n    var r = "";', '    if (atype<char>())\n        return nil;\n\n    var r = "";', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '(iStr[0] & 0xF8) == 0xF0', '(iStr[0] & 0xF0) == 0xF0', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '(iStr[0] & 0xE0) == 0xC0', '(iStr[0] & 0xE0) == 0xE0', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '(iStr[i] & 0xC0) != 0x80', '(iStr[i] & 0x80) != 0x80', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '(iStr[i] & 0xC0) != 0x80', '(unsigned char)iStr[i] < 0x80 || (unsigned char)iStr[i] > 0xBF', None, 'same'),
 ('C18', 'lube/utf8.cpp', '    for (int i=1; i<len; i++)', '    for (int i=1; i<len-1; i++)', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '    for (int i=1; i<len; i++)', '    for (int i=len-1; i>0; i--)', None, 'same'),
 ('C18', 'lube/utf8.cpp', '        if (l == 0)\n            return -1;\n        clen += l;', '        if (l == 0)\n            l = 1;\n        clen += l;', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '        code += 1;', '        code += l;', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '        clen += l;\n        code += 1;', '        ++code;\n        clen = clen + l;', None, 'same'),
 ('C18', 'lube/utf8.cpp', '    if (!atype<char>())\n        return size();', '    if (!atype<char>())\n        return dim();', None, 'bug'),
 ('C18', 'lube/utf8.cpp', '    if ((iStr[0] & 0x80) == 0x00) // 0xxxxxxx\n        return 1;', '    if (!(iStr[0] & 0x80))\n        return 1;', None, 'same'),
 ('C18', 'lube/utf8.cpp', '    if ((iStr[0] & 0x80) == 0x00) // 0xxxxxxx\n        return 1;', '    if (iStr[0] >= 0)\n        return 1;', None, 'same'),
 ('C18', 'lube/string.cpp', '    r = iVar.copy(true);', '    r = iVar.copy(iVar.atype<char>());', None, 'bug'),
 ('C18', 'lube/string.cpp', '    r = iVar.copy(true);', '    r = iVar.copy();', None, 'bug'),
 ('C18', 'lube/string.cpp', '    var r;\n    r = iVar.copy(true);\n    return r;', '    return iVar.copy(true);', None, 'same'),
 ('C18', 'lube/string.cpp', '            resize(size);\n            str = ptr<char>();\n        }', '            resize(size);\n        }', None, 'bug'),
 ('C18', 'lube/string.cpp', '        str[read++] = c;', '        ptr<char>()[read++] = c;', None, 'same'),
 ('C19', 'lube/json.cpp', 'if ((c == \'\\"\') || (c == \'\\\\\'))', 'if (c == \'\\"\')', None, 'bug'),
 ('C19', 'lube/json.cpp', "iStream << '\\\\';", "iStream << '/';", None, 'bug'),
 ('C19', 'lube/json.cpp', 'for (int i=0; i<iVar.size(); i++)\n        {\n            char c', 'for (int i=0; i<iVar.size()-1; i++)\n        {\n            char c', None, 'bug'),
 ('C19', 'lube/json.cpp', '            if (i < iVar.size()-1)\n                iStream << ",";\n            iStream << "\\n";', '            if (i < iVar.size()-2)\n                iStream << ",";\n            iStream << "\\n";', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if (i != 0)\n                iStream << ", ";', 'if (i > 1)\n                iStream << ", ";', None, 'bug'),
 ('C19', 'lube/json.cpp', 'iStream << iVar.key(i) << ": ";', 'iStream << iVar[i] << ": ";', None, 'bug'),
 ('C19', 'lube/json.cpp', 'format(iStream, iVar[i], iIndent+2);\n            if (i < iVar.size()-1)\n                iStream << ",";\n        }', 'format(iStream, iVar[0], iIndent+2);\n            if (i < iVar.size()-1)\n                iStream << ",";\n        }', None, 'bug'),
 ('C19', 'lube/json.cpp', 'iVar[k*nRows*nCols + j*nCols + i]', 'iVar[k*nRows*nCols + i*nRows + j]', None, 'bug'),
 ('C19', 'lube/json.cpp', 'iVar[k*nRows*nCols + j*nCols + i]', 'iVar[k*nRows + j*nCols + i]', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if ( (j != nRows-1) || (i != nCols-1) )', 'if ( (j != nRows-1) && (i != nCols-1) )', None, 'bug'),
 ('C19', 'lube/json.cpp', 'iStream << *iVar.ptr<cdouble>(i);', 'iStream << *iVar.ptr<cdouble>(0);', None, 'bug'),
 ('C19', 'lube/json.cpp', 'iStream << iVar.get<double>();', 'iStream << iVar.get<float>();', None, 'bug'),
 ('C19', 'lube/json.cpp', 'iStream << iVar.get<long>();', 'iStream << iVar.get<int>();', None, 'bug'),
 ('C19', 'lube/json.cpp', 'iStream << "null";', 'iStream << "0";', None, 'bug'),
 ('C19', 'lube/json.cpp', "            case '\\\\':\n                str.push(got);", "            case '\\\\':\n                str.push('/');", None, 'bug'),
 ('C19', 'lube/json.cpp', '            got = iStream.get();\n            switch (got)', '            switch (got)', None, 'bug'),
 ('C19', 'lube/json.cpp', '        case \'\\"\':\n            return str;', '        case \'\\"\':\n        case \'\\\'\':\n            return str;', None, 'bug'),
 ('C19', 'lube/json.cpp', '    while (isspace(c))', "    while (c == ' ')", None, 'bug'),
 ('C19', 'lube/json.cpp', '    while (isspace(c))', "    while (isspace(c) || c == '0')", None, 'bug'),
 ('C19', 'lube/json.cpp', "        case ',':\n            iStream.get();\n            break;\n        default:\n            val = doValue", "        case ',':\n        case '-':\n            iStream.get();\n            break;\n        default:\n            val = doValue", None, 'bug'),
 ('C19', 'lube/json.cpp', '            arr.push(val);\n        }', '            if (val) arr.push(val);\n        }', None, 'bug'),
 ('C19', 'lube/json.cpp', "        case ']':\n            iStream.get();\n            return arr;", "        case ']':\n            return arr;", None, 'bug'),
 ('C19', 'lube/json.cpp', "        case '}':\n            iStream.get();\n            return obj;", "        case '}':\n        case ']':\n            iStream.get();\n            return obj;", None, 'bug'),
 ('C19', 'lube/json.cpp', 'obj[key] = doValue(iStream);', 'doValue(iStream);', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if (strchr(",[]{}", c))', 'if (strchr(",]", c))', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if (strchr(",[]{}", c))', 'if (strchr(".,[]{}", c))', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if (val == "true")\n        return 1;', 'if (val == "true")\n        return 0;', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if (!vs.fail() && vs.eof())\n        return l;', 'if (!vs.fail())\n        return l;', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if (!vs.fail() && vs.eof())\n        return d;', 'if (!vs.fail())\n        return d;', None, 'bug'),
 ('C19', 'lube/json.cpp', '        val.push((char)iStream.get());\n    }', '        val.push((char)iStream.get());\n    }\n    iStream.get();', None, 'bug'),
 ('C19', 'lube/json.cpp', 'if ((c == \'\\"\') || (c == \'\\\\\'))', 'if (strchr("\\"\\\\", c) && c)', None, 'same'),
 ('C19', 'lube/json.cpp', '            if (i < iVar.size()-1)\n                iStream << ",";\n            iStream << "\\n";', "            if (i+1 != iVar.size())\n                iStream << ',';\n            iStream << std::endl;", None, 'same'),
 ('C19', 'lube/json.cpp', '        for (int i=0; i<iVar.size(); i++)\n        {\n            if (i != 0)\n                iStream << ", ";\n            iStream << iVar.at(i);\n        }', '        if (iVar.size())\n            iStream << iVar.at(0);\n        for (int i=1; i<iVar.size(); i++)\n            iStream << ", " << iVar.at(i);', None, 'same'),
 ('C19', 'lube/json.cpp', '        case \'\\"\':\n            return str;\n        case \'\\\\\':\n            // Escape character\n            got = iStream.get();\n            switch (got)\n            {\n            case \'\\"\':\n            case \'\\\\\':\n                str.push(got);\n                break;\n            default:\n                throw error("Unrecognised JSON string escape");\n            }\n            break;', '        case \'\\"\':\n            return str;\n        case \'\\\\\':\n            got = iStream.get();\n            if (got != \'\\"\' && got != \'\\\\\')\n                throw error("Unrecognised JSON string escape");\n            str.push(got);\n            break;', None, 'same'),
 ('C19', 'lube/json.cpp', '    char c = iStream.peek();\n    while (isspace(c))\n    {\n        iStream.get();\n        c = iStream.peek();\n    }\n    return c;', '    for (;;)\n    {\n        char c = iStream.peek();\n        if (!isspace(c))\n            return c;\n        iStream.ignore();\n    }', None, 'same'),
 ('C19', 'lube/json.cpp', '        val.push((char)iStream.get());', '        iStream.get();\n        val.push((char)c);', None, 'same'),
 ('C19', 'lube/json.cpp', 'if (strchr(",[]{}", c))', "if (c == ',' || c == '[' || c == ']' || c == '{' || c == '}')", None, 'same'),
 ('C19', 'lube/json.cpp', '    case \'"\':\n        val = doString(iStream);\n        break;\n    default:\n        val = doRaw(iStream);\n    }\n    return val;', '    case \'"\':\n        return doString(iStream);\n    default:\n        return doRaw(iStream);\n    }\n    return val;', None, 'same'),
 ('C19', 'lube/json.cpp', '            obj[key] = doValue(iStream);', '            {\n                var v = doValue(iStream);\n                obj[key] = v;\n            }', None, 'same'),
 ('C19', 'lube/json.cpp', '    int nMats = 1;\n    for (int i=0; i<nDim-2; i++)\n        nMats *= iVar.shape(i);', '    int nMats = 1;\n    int d = 0;\n    while (d < nDim-2)\n        nMats *= iVar.shape(d++);', None, 'same'),
 ('C19', 'lube/json.cpp', 'iVar[k*nRows*nCols + j*nCols + i]', 'iVar[(k*nRows + j)*nCols + i]', None, 'same'),
 ('C19', 'lube/json.cpp', '            iStream << iVar.key(i) << ": ";', '            if (iVar.key(i).atype<char>())\n                iStream << \'"\' << iVar.key(i).str() << "\\": ";\n            else\n                iStream << iVar.key(i) << ": ";', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'iOS << "&lt;";', 'iOS << "&gt;";', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '        case \'&\':\n            iOS << "&amp;";\n            break;\n', '', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '        case \'"\':\n            iOS << "&quot;";\n            break;\n', '', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '    for (int i=0; i<iVar.size(); i++)\n        switch', '    for (int i=0; i<iVar.size()-1; i++)\n        switch', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'iOS << " " << attr.key(i)', 'iOS << attr.key(i)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'escape(iOS, attr[i]);', 'iOS << attr[i].str();', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'escape(iOS, attr[i]);', 'escape(iOS, attr[0]);', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '    for (int i=0; i<data.size(); i++)\n        if (!writeElem', '    for (int i=1; i<data.size(); i++)\n        if (!writeElem', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'if (!writeElem(iOS, data[i]))\n            escape(iOS, data[i]);', 'if (writeElem(iOS, data[i]))\n            escape(iOS, data[i]);', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'iOS << "</" << name.str()', 'iOS << "</" << iVar[TYPE].str()', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '    if ((iVar.size() != 4) || (iVar[TYPE] != "text"))', '    if (iVar.size() != 4)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'elem[NAME] = iName;', 'elem[TYPE] = iName;', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'iAtts += 2;', 'iAtts += 1;', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'elem[ATTR][iAtts[0]] = iAtts[1];', 'elem[ATTR][iAtts[1]] = iAtts[0];', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'return elem.copy();', 'return elem;', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '    mStack.pop();\n', '', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'var str(iLen, iStr);\n    mStack.top()', 'var str(iStr);\n    mStack.top()', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', "if ((iLen == 1) && (*iStr == '\\n'))\n        return;\n    var", 'if (iLen == 1)\n        return;\n    var', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'XML_Parse(mParser, f.str(), f.size(), 0)', 'XML_Parse(mParser, f.str(), f.size()-1, 0)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '        s = XML_Parse(mParser, "\\n", 1, 0);\n', '', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'XML_Parse(mParser, f.str(), 0, 1)', 'XML_Parse(mParser, f.str(), 0, 0)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '        case \'>\':\n            iOS << "&gt;";\n            break;\n', '', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', 'iOS << "&apos;";', 'iOS << "&#39;";', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', '        iOS << " />";\n', '        iOS << "/>";\n', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', '        if (!writeElem(iOS, data[i]))\n            escape(iOS, data[i]);', '    {\n        var d = data[i];\n        if (writeElem(iOS, d))\n            continue;\n        escape(iOS, d);\n    }', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', '    while (*iAtts)\n    {\n        elem[ATTR][iAtts[0]] = iAtts[1];\n        iAtts += 2;\n    }', '    for (int i=0; iAtts[i]; i+=2)\n        elem[ATTR][iAtts[i]] = iAtts[i+1];', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', '    while (*iAtts)\n    {\n        elem[ATTR][iAtts[0]] = iAtts[1];\n        iAtts += 2;\n    }', '    while (*iAtts)\n    {\n        const XML_Char* key = *iAtts++;\n        const XML_Char* val = *iAtts++;\n        elem[ATTR][key] = val;\n    }', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', '    mStack.push(elem);\n    elem[NAME] = iName;', '    elem[NAME] = iName;\n    mStack.push(elem);', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', 'if (mStack.top()[NAME] != iName)\n        throw error("Expat::endElementHandler: malformed xml");\n', '', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', '    XML_SetStartElementHandler(mParser, StartElementHandler);\n    XML_SetEndElementHandler(mParser, EndElementHandler);', '    XML_SetElementHandler(mParser, StartElementHandler, EndElementHandler);', None, 'same'),
 ('C21', 'lube/stream.cpp', 'mVar.push(iInt);', 'mVar.unshift(iInt);', None, 'bug'),
 ('C21', 'lube/stream.cpp', '        mVar.push(iInt);\n    return iInt;', '        mVar.push(static_cast<char>(iInt));\n    return traits_type::not_eof(iInt);', None, 'same'),
 ('C21', 'lube/stream.cpp', '        mVar.push(iInt);\n    return iInt;', '        mVar.push(static_cast<char>(iInt & 0x7f));\n    return iInt;', None, 'bug'),
 ('C21', 'lube/stream.cpp', '        mVar.push(iInt);\n    return iInt;', '        mVar.push(static_cast<char>(iInt));\n    return static_cast<char>(iInt);', None, 'bug'),
 ('C21', 'lube/stream.cpp', 'if (iInt != traits_type::eof())\n        mVar.push(iInt);', 'mVar.push(iInt);', None, 'bug'),
 ('C21', 'lube/stream.cpp', '    if (mInd < mVar.size())\n        return traits_type::to_int_type(mVar[mInd++].get<char>());', '    if (mInd <= mVar.size())\n        return traits_type::to_int_type(mVar[mInd++].get<char>());', None, 'bug'),
 ('C21', 'lube/stream.cpp', '    if (mInd < mVar.size())\n        return traits_type::to_int_type(mVar[mInd++].get<char>());', '    if (mInd < mVar.size() - 1)\n        return traits_type::to_int_type(mVar[mInd++].get<char>());', None, 'bug'),
 ('C21', 'lube/stream.cpp', '    if (mInd < mVar.size())\n        return traits_type::to_int_type(mVar[mInd++].get<char>());', '    int c = underflow();\n    if (c != traits_type::eof())\n        mInd += 1;\n    return c;', None, 'same'),
 ('C21', 'lube/stream.cpp', 'traits_type::to_int_type(mVar[mInd].get<char>())', 'mVar[mInd].get<char>()', None, 'bug'),
 ('C21', 'lube/stream.cpp', 'traits_type::to_int_type(mVar[mInd].get<char>())', 'static_cast<unsigned char>(mVar[mInd].get<char>())', None, 'same'),
 ('C21', 'lube/stream.cpp', 'traits_type::to_int_type(mVar[mInd].get<char>())', 'mVar[mInd].get<char>() & 0xff', None, 'same'),
 ('C21', 'lube/stream.cpp', 'traits_type::to_int_type(mVar[mInd].get<char>())', 'traits_type::to_int_type(mVar.at(mInd).get<char>())', None, 'same'),
 ('C21', 'lube/stream.cpp', 'traits_type::to_int_type(mVar[mInd].get<char>())', 'traits_type::to_int_type(*mVar.ptr<char>(mInd))', None, 'same'),
 ('C21', 'lube/stream.cpp', 'traits_type::to_int_type(mVar[mInd].get<char>())', 'traits_type::to_int_type(mVar.ptr<char>()[mInd])', None, 'same'),
 ('C21', 'lube/stream.cpp', 'mVar[mInd++].get<char>()', 'mVar[mInd++].get<char>() & 0x7f', None, 'bug'),
 ('C21', 'lube/stream.cpp', '    int c = traits_type::to_int_type(mVar[mInd-1].get<char>());', '    int c = traits_type::to_int_type(mVar[mInd].get<char>());', None, 'bug'),
 ('C21', 'lube/stream.cpp', 'if (mInd > 0)', 'if (mInd > 1)', None, 'bug'),
 ('C21', 'lube/stream.cpp', 'if (mInd > 0)', 'if (mInd >= 0)', None, 'bug'),
 ('C21', 'lube/stream.cpp', '(iInt == traits_type::eof()) || (iInt == c)', 'iInt != 256', None, 'bug'),
 ('C21', 'lube/stream.cpp', '            mInd--;\n            return c;', '            return c;', None, 'bug'),
 ('C21', 'lube/stream.cpp', '            mInd--;\n            return c;', '            return c + 0 * mInd--;', None, 'same'),
 ('C21', 'lube/stream.cpp', '(iPos > mVar.size())', '(iPos >= mVar.size())', None, 'bug'),
 ('C21', 'lube/stream.cpp', '(iPos > mVar.size())', '(iPos > mVar.size() + 1)', None, 'bug'),
 ('C21', 'lube/stream.cpp', '(iPos < 0) || ', '', None, 'bug'),
 ('C21', 'lube/stream.cpp', '    mInd = iPos;\n    return iPos;', '    mInd = iPos;\n    return std::streampos(0);', None, 'bug'),
 ('C21', 'lube/stream.cpp', '    if ((iPos < 0) || (iPos > mVar.size()))\n        return std::streampos(std::streamoff(-1));\n    mInd = iPos;\n    return iPos;', '    std::streamoff off = iPos;\n    if (off >= 0 && off < mVar.size() + 1)\n    {\n        mInd = off;\n        return iPos;\n    }\n    return std::streampos(std::streamoff(-1));', None, 'same'),
 ('C21', 'lube/stream.cpp', 'mInd = 0;', 'mInd = 1;', None, 'bug'),
 ('C21', 'lube/stream.cpp', 'mVar = iVar.array();', 'mVar = iVar.array().copy();', None, 'bug'),
 ('C21', 'lube/stream.cpp', 'mVar = iVar.array();', '{ mVar = iVar; mVar.array(); }', None, 'same'),
 ('C21', 'lube/stream.cpp', 'mVar = "";', 'mVar = " ";', None, 'bug'),
 ('C21', 'lube/stream.cpp', ': std::iostream(&mVarBuf)', ': std::iostream(0)', None, 'bug'),
 ('C02', 'lube/var.cpp', '        oVar = static_cast<T>(iVar.get<long>());', '        oVar = static_cast<T>(static_cast<int>(iVar.get<long>()));', None, 'bug'),
 ('C08', 'lube/var.cpp', '        bounds(i, d);\n        p += d * stride(i);', '        p += d * stride(i);\n        bounds(i, p);', None, 'bug'),
 ('C09', 'lube/var.cpp', '        if (((v.type() != TYPE_ARRAY) && (iSize != 1)) ||', '        if (((v.type() != TYPE_ARRAY) && (iSize > 1)) ||', None, 'bug'),
 ('C10', 'lube/var.cpp', '    for (int i=0; i<dim(); i++)\n        s.push(shape(i));', '    for (int i=0; i<dim(); i++)\n        s.push(stride(i));', None, 'bug'),
 ('C13', 'lube/var.cpp', '        return (get<double>() != iVar.get<double>());', '        return (std::abs(get<double>() - iVar.get<double>()) > 1e-12);', None, 'bug'),
 ('C02', 'lube/heap.cpp', '    return v ? v->type() : mType;', '    return v ? v->atype() : mType;', 0, 'bug'),
 ('C02', 'lube/heap.cpp', '    return v ? v->defined() : true;', '    return v ? v->heap() != 0 : true;', 0, 'bug'),
 ('C07', 'lube/var.cpp', '    if (mType == TYPE_ARRAY)\n        return mData.hp->type();\n    return mType;', '    if (mType == TYPE_ARRAY)\n        return mData.hp->type() == TYPE_PAIR ? ind(TYPE_VAR) : mData.hp->type();\n    return mType;', 0, 'bug'),
 ('C07', 'lube/var.cpp', '    if (h1->ptrchar() == h2->ptrchar())\n        return true;', '    if (h1 == h2)\n        return true;', 0, 'bug'),
 ('C07', 'lube/var.cpp', '        return atype() == TYPE_CFLOAT;', '        return atype() == TYPE_CFLOAT || atype() == TYPE_CDOUBLE;', 0, 'bug'),
 ('C07', 'lube/var.cpp', '    case TYPE_LONG: return "long";', '    case TYPE_LONG: return "int";', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    while (iData[++size]) {}', '    while (iData[++size] && *iData[size]) {}', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    for (int i=1; i<iSize; i++)\n        at(i) = iVar;', '    for (int i=1; i<iSize-1; i++)\n        at(i) = iVar;', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    for (const var* it=begin(iList); it!=end(iList); ++it)', '    for (const var* it=begin(iList); it!=end(iList) && it->defined(); ++it)', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    for (int i=0; i<size(); i++)\n        at(i) = iType;\n}', '    for (int i=0; i<shape(0); i++)\n        at(i) = iType;\n}', 0, 'bug'),
 ('C22', 'lube/heap.cpp', '    mType = TYPE_INT;\n    append(iSize, iData);', '    mType = TYPE_INT;\n    append(iSize ? iSize : 1, iData);', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    while (v < iHi)\n    {', '    while (v < iHi-iStep+1)\n    {', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    return libube::range(iHi-iHi+1, iHi);', '    return libube::range(1, iHi);', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    while (v <= iHi)', '    while (v < iHi+iStep)', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    var v = iLo.copy();\n    while (v <= iHi)', '    var v = iLo;\n    while (v <= iHi)', 0, 'bug'),
 ('C22', 'lube/var.cpp', 'var::var(const char* iData) : var(std::strlen(iData), iData)', 'var::var(const char* iData) : var((int)(signed char)std::strlen(iData), iData)', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    heap()->append(std::strlen(iStr), iStr);', '    heap()->append(std::strlen(iStr)+1, iStr);', 0, 'bug'),
 ('C02', 'lube/heap.cpp', '    return v ? v->size() : 1;', '    return v ? v->size() : derefType(iIndex) == TYPE_CFLOAT ? 2 : 1;', 0, 'bug'),
 ('C02', 'lube/heap.cpp', '    return v ? v->heap() : 0;', '    return v && v->atype() != TYPE_PAIR ? v->heap() : 0;', 0, 'bug'),
 ('C02', 'lube/var.cpp', '    mData.l = iData;\n    mType = TYPE_LONG;', '    mData.i = iData;\n    mType = TYPE_LONG;', 0, 'bug'),
 ('C22', 'lube/var.cpp', '    heap()->append(std::strlen(iStr), iStr);', '    heap()->append(std::strlen(iStr)+!*iStr, iStr);', None, 'bug'),
 ('C21', 'lube/stream.cpp', '    mInd = 0;\n', '', None, 'bug'),
 ('C10', 'lube/var.cpp', '    for (int i=0; i<iShape.size(); i++)\n        s *= iShape[i].cast<int>();', '    for (int i=iShape.size()-1; i>=0; i--)\n        s *= iShape[i].cast<int>();', None, 'same'),
 ('C11', 'lube/heap.cpp', '        mData.cfp[0] = iVar.cast<cfloat>();\n        break;', '        mData.cfp[0] = iVar.cast<cfloat>();\n        ;', None, 'bug'),
 ('C09', 'lube/heap.cpp', '        mData.lp = new long[iSize];\n        break;', '        mData.lp = new long[iSize];\n        ;', None, 'bug'),
 ('C13', 'lube/heap.cpp', 'if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )', 'if ( (type() == TYPE_DOUBLE) && (iHeap->type() == TYPE_CHAR) )', None, 'bug'),
 ('C23', 'lube/config.cpp', 'if (sec && sec.index(iEntry))\n        return sec[iEntry];', 'if (sec && sec.index(iEntry) > 0)\n        return sec[iEntry];', None, 'bug'),
 ('C23', 'lube/config.cpp', '    if (sec && sec.index(iEntry))\n        return sec[iEntry];\n', '    if (sec)\n        return sec[iEntry];\n', None, 'bug'),
 ('C23', 'lube/config.cpp', '        if (sec && sec.index(iEntry))                            \\\n            return sec[iEntry].cast<T>();', '        if (sec)                            \\\n            return sec[iEntry].cast<T>();', None, 'bug'),
 ('C23', 'lube/config.cpp', 'return sec[iEntry].cast<T>();', 'return sec[iEntry].cast<int>();', None, 'bug'),
 ('C23', 'lube/config.cpp', '        return sec[iEntry].str();\n    return iDefault;', '        return sec[iEntry].str();\n    return "";', None, 'bug'),
 ('C23', 'lube/config.cpp', '    sConfig[mSection][iEntry] = iValue;', '    sConfig[iEntry] = iValue;', None, 'bug'),
 ('C23', 'lube/config.cpp', '    if (!mSection)\n        return;\n', '', None, 'bug'),
 ('C23', 'lube/config.cpp', '    if (!iSection)\n        mSection = nil;\n    else\n        mSection = iSection;', '    if (iSection)\n        mSection = iSection;', None, 'bug'),
 ('C23', 'lube/config.cpp', 'for (int j=0; j<secval.size(); j++)', 'for (int j=1; j<secval.size(); j++)', None, 'bug'),
 ('C23', 'lube/config.cpp', 'for (int i=0; i<cnf.size(); i++)', 'for (int i=0; i<cnf.size()-1; i++)', None, 'bug'),
 ('C23', 'lube/config.cpp', 'sConfig[seckey][entry] = secval[entry];', 'if (!sConfig[seckey].defined()) sConfig[seckey][entry] = secval[entry];', None, 'bug'),
 ('C23', 'lube/config.cpp', 'sConfig[seckey][entry] = secval[entry];', 'sConfig[mSection][entry] = secval[entry];', None, 'bug'),
 ('C23', 'lube/config.cpp', '            var entry = secval.key(j);\n            sConfig[seckey][entry] = secval[entry];', '            sConfig[seckey][secval.key(j)] = secval[secval.key(0)];', None, 'bug'),
 ('C23', 'lube/config.cpp', '        for (int j=0; j<secval.size(); j++)\n        {\n            var entry = secval.key(j);\n            sConfig[seckey][entry] = secval[entry];\n        }', '        sConfig[seckey] = secval;', None, 'bug'),
 ('C23', 'lube/config.cpp', '    if (!sConfig)\n        sConfig[nil];', '    sConfig = nil;\n    sConfig[nil];', None, 'bug'),
 ('C23', 'lube/config.cpp', '    optind = 1; //', '    optind = 0; //', None, 'bug'),
 ('C23', 'lube/config.cpp', '    mOptString = iOptString ? iOptString : "";', '    mOptString = iOptString ? "" : iOptString;', None, 'bug'),
 ('C23', 'lube/config.cpp', '    return mOpt != -1;', '    return mOpt > 0;', None, 'same'),
 ('C23', 'lube/config.cpp', '    return mOpt != -1;', "    return mOpt != '?';", None, 'bug'),
 ('C23', 'lube/config.cpp', '    if (!optarg)\n    {\n        varstream e;', '    if (mOpt < 0)\n    {\n        varstream e;', None, 'bug'),
 ('C23', 'lube/config.cpp', 'return var(mArgc-optind, mArgv+optind);', 'return var(mArgc-optind, mArgv+optind-1);', None, 'bug'),
 ('C23', 'lube/config.cpp', 'return var(mArgc-optind, mArgv+optind);', 'return var(mArgc-1, mArgv+1);', None, 'bug'),
 ('C23', 'lube/config.cpp', "    if (iDefault)\n        mOptString.push(':');", "    if (!iDefault)\n        mOptString.push(':');", None, 'bug'),
 ('C23', 'lube/config.cpp', "    if (iDefault)\n        mOptString.push(':');", "    if (iDefault.size())\n        mOptString.push(':');", None, 'bug'),
 ('C23', 'lube/config.cpp', '    mOpts[var(iChar)] = iDefault;', '    if (iDefault) mOpts[var(iChar)] = 0; else mOpts[var(iChar)] = iDefault;', None, 'bug'),
 ('C23', 'lube/config.cpp', '        var a = optarg ? arg() : 1;', '        var a = optarg ? arg() : 0;', None, 'bug'),
 ('C23', 'lube/config.cpp', '        mOpts[o] = a;', '        if (!mOpts[o]) mOpts[o] = a;', None, 'bug'),
 ('C23', 'lube/config.cpp', "        if (o == '?')\n            usage(0);\n", '', None, 'bug'),
 ('C23', 'lube/config.cpp', "        if (o == '?')", "        if (o == ':')", None, 'bug'),
 ('C23', 'lube/config.cpp', '    mArgc = iArgc;\n    mArgv = iArgv;\n    while', '    mArgc = iArgc;\n    while', None, 'bug'),
 ('C23', 'lube/config.cpp', 'for (int i=0; i<mUsage.size(); i++)', 'for (int i=1; i<mUsage.size(); i++)', None, 'bug'),
 ('C23', 'lube/inifile.cpp', '    while (f.getline(is))\n    {\n        f.strip();', '    while (f.getline(is))\n    {', None, 'bug'),
 ('C23', 'lube/inifile.cpp', "        if (f.size() == 0 || f[0] == ';' || f[0] == '#')", "        if (f.size() == 0 || f[0] == ';')", None, 'bug'),
 ('C23', 'lube/inifile.cpp', '            section.resize(close);\n            section.shift();', '            section.shift();\n            section.resize(close);', None, 'bug'),
 ('C23', 'lube/inifile.cpp', '            section.shift();\n', '', None, 'bug'),
 ('C23', 'lube/inifile.cpp', 'f.split("=", 2);', 'f.split("=");', None, 'bug'),
 ('C23', 'lube/inifile.cpp', '            var kv = f.split("=", 2);\n            if (kv.size() < 2)\n                kv = f.split(":", 2);', '            var kv = f.split(":", 2);\n            if (kv.size() < 2)\n                kv = f.split("=", 2);', None, 'bug'),
 ('C23', 'lube/inifile.cpp', '            if (kv.size() < 2)\n                throw error("inifile::read(): couldn\'t split");\n', '            if (kv.size() < 2)\n                continue;\n', None, 'bug'),
 ('C23', 'lube/inifile.cpp', '            kv[0].strip();\n', '', None, 'bug'),
 ('C23', 'lube/inifile.cpp', '            kv[1].strip();\n', '', None, 'bug'),
 ('C23', 'lube/inifile.cpp', 'oVar[section][kv[0]] = kv[1];', 'oVar[section][kv[1]] = kv[0];', None, 'bug'),
 ('C23', 'lube/inifile.cpp', "        if (f[0] == '[')", "        if (f[0] == '[' && !f.index('='))", None, 'bug'),
 ('C23', 'lube/txtfile.cpp', '        o.push(f.copy());', '        if (f.size()) o.push(f.copy());', None, 'bug'),
 ('C23', 'lube/txtfile.cpp', '        o.push(f.copy());', '    { f.strip();    o.push(f.copy()); }', None, 'bug'),
 ('C23', 'lube/txtfile.cpp', '        o.push(f.copy());', '        o.unshift(f.copy());', None, 'bug'),
 ('C23', 'lube/txtfile.cpp', 'for (int i=0; i<iVar.size(); i++)', 'for (int i=0; i<iVar.size()-1; i++)', None, 'bug'),
 ('C23', 'lube/txtfile.cpp', 'os << iVar.at(i) << std::endl;', 'os << iVar.at(i);', None, 'bug'),
 ('C23', 'lube/txtfile.cpp', 'std::ofstream os(iFile.str(), std::ofstream::out);', 'std::ofstream os(iFile.str(), std::ofstream::app);', None, 'bug'),
 ('C23', 'lube/config.cpp', '    var sec = sConfig[mSection];\n    if (sec && sec.index(iEntry))\n        return sec[iEntry];\n    return nil;', '    var sec = sConfig[mSection];\n    if (!sec)\n        return nil;\n    ind i = sec.index(iEntry);\n    if (!i)\n        return nil;\n    return sec[iEntry];', None, 'same'),
 ('C23', 'lube/config.cpp', '    if (!iSection)\n        mSection = nil;\n    else\n        mSection = iSection;', '    mSection = iSection;', None, 'same'),
 ('C23', 'lube/config.cpp', '            var entry = secval.key(j);\n            sConfig[seckey][entry] = secval[entry];', '            sConfig[seckey][secval.key(j)] = secval[j];', None, 'same'),
 ('C23', 'lube/config.cpp', '    for (int i=0; i<cnf.size(); i++)\n    {\n        var seckey = cnf.key(i);\n        var secval = cnf[i];', '    int n = cnf.size();\n    for (int i=n-1; i>=0; --i)\n    {\n        var seckey = cnf.key(i);\n        var secval = cnf[seckey];', None, 'same'),
 ('C23', 'lube/config.cpp', "        var o = (char)get();\n        if (o == '?')\n            usage(0);\n        var a = optarg ? arg() : 1;\n        mOpts[o] = a;", "        int c = get();\n        if (c == '?')\n            usage(0);\n        if (optarg)\n            mOpts[var((char)c)] = var(optarg);\n        else\n            mOpts[var((char)c)] = 1;", None, 'same'),
 ('C23', 'lube/config.cpp', '    if (iDefault)\n        mOptString.push(\':\');\n    varstream desc;\n    desc << " -" << iChar << " " << iDescription.str();\n    if (iDefault)\n        desc << " [" << iDefault << "]";', '    varstream desc;\n    desc << " -" << iChar << " " << iDescription.str();\n    if (iDefault)\n    {\n        mOptString.push(\':\');\n        desc << " [" << iDefault << "]";\n    }', None, 'same'),
 ('C23', 'lube/inifile.cpp', "        if (f.size() == 0 || f[0] == ';' || f[0] == '#')\n            // It's blank or a comment line\n            continue;\n        if (f[0] == '[')", "        if (f.size() == 0)\n            continue;\n        char c = f[0].cast<char>();\n        if (c == ';' || c == '#')\n            continue;\n        if (c == '[')", None, 'same'),
 ('C23', 'lube/inifile.cpp', '            var kv = f.split("=", 2);\n            if (kv.size() < 2)\n                kv = f.split(":", 2);\n            if (kv.size() < 2)\n                throw error("inifile::read(): couldn\'t split");', '            var kv = f.split("=", 2);\n            if (kv.size() != 2)\n            {\n                kv = f.split(":", 2);\n                if (kv.size() != 2)\n                    throw error("inifile::read(): couldn\'t split");\n            }', None, 'same'),
 ('C23', 'lube/inifile.cpp', '            section = f.copy();\n            section.resize(close);\n            section.shift();', '            var name = f.copy();\n            name.resize(close);\n            name.shift();\n            section = name;', None, 'same'),
 ('C23', 'lube/txtfile.cpp', '    while (f.getline(is))\n        o.push(f.copy());', '    while (true)\n    {\n        if (!f.getline(is))\n            break;\n        var line = f.copy();\n        o.push(line);\n    }', None, 'same'),
 ('C23', 'lube/txtfile.cpp', 'os << iVar.at(i) << std::endl;', 'os << iVar[i] << "\\n";', None, 'same'),
 ('C02', 'lube/var.cpp', '        s.exceptions(std::ios_base::badbit | std::ios_base::failbit);\n', '', None, 'bug'),
 ('C02', 'lube/var.cpp', '        s.exceptions(std::ios_base::badbit | std::ios_base::failbit);\n', '        s.exceptions(std::ios_base::badbit);\n', None, 'bug'),
 ('C02', 'lube/var.cpp', '    if (!iVar.heap() || iVar.atype() >= TYPE_VAR || iVar.atype<char>())\n        return iVar.copy(true);', '    if (iVar.heap() || iVar.atype() >= TYPE_VAR || iVar.atype<char>())\n        return iVar.copy(true);', None, 'bug'),
 ('C02', 'lube/var.cpp', '            broadcast(iVar, oVar);\n        break;', '            ;\n        break;', None, 'bug'),
 ('C02', 'lube/var.cpp', '        if (!v.atype<T>() || v.size() != 1)', '        if (!v.atype<T>())', None, 'bug'),
 ('C02', 'lube/var.cpp', '    if (!iVar.heap() || iVar.atype() >= TYPE_VAR || iVar.atype<char>())', '    if (!iVar.heap() || iVar.atype<char>())', None, 'bug'),
 ('C02', 'lube/var.cpp', '    if (iVar.dim() > 1)\n        return libube::view(iVar.shape(), r);\n    return r.resize(iVar.size());', '    return r.resize(iVar.size());', None, 'bug'),
 ('C02', 'lube/var.cpp', '    return r.resize(iVar.size());\n}\n\n\ntemplate <class T>\nvoid Cast', '    return r.resize(iVar.size() > 64 ? 64 : iVar.size());\n}\n\n\ntemplate <class T>\nvoid Cast', None, 'bug'),
 ('C02', 'lube/var.cpp', '        s >> t;\n        oVar = t;', '        s >> t;\n        if (s.fail())\n            throw error("no number");\n        oVar = t;', None, 'same'),
 ('C02', 'lube/var.cpp', '        s.exceptions(std::ios_base::badbit | std::ios_base::failbit);\n        s >> t;', '        s >> t;\n        if (!s)\n            throw error("no number");\n', None, 'same'),
 ('C02', 'lube/var.cpp', '    var r = T(0);\n    if (iVar.dim() > 1)\n        return libube::view(iVar.shape(), r);\n    return r.resize(iVar.size());', '    var r = T(0);\n    if (iVar.dim() == 1)\n        return r.resize(iVar.size());\n    return libube::view(iVar.shape(), r);', None, 'same'),
 ('C02', 'lube/var.cpp', '        T t;\n        varstream s(iVar);\n        s.exceptions(std::ios_base::badbit | std::ios_base::failbit);\n        s >> t;', '        std::istringstream s(iVar.str());\n        s.exceptions(std::ios_base::failbit);\n        T t;\n        s >> t;', None, 'same'),
 ('C02', 'lube/var.cpp', '    const T t = 0;\n    static var v = t;\n    if (v.type() == iVar.type() && v.atype() == iVar.atype())', '    const T t = 0;\n    static var v = t;\n    bool same = v.type() == iVar.type() && v.atype() == iVar.atype();\n    if (same)', None, 'same'),
 ('C11', 'lube/var.cpp', '        if (iVar.is(*this))\n            iVar = iVar.copy();\n        int n = iVar.size();', '        if (iVar.is(*this))\n            ;\n        int n = iVar.size();', None, 'bug'),
 ('C11', 'lube/var.cpp', '        if (iVar.is(*this))\n            iVar = iVar.copy();\n        int n = iVar.size();', '        if (!iVar.is(*this))\n            iVar = iVar.copy();\n        int n = iVar.size();', None, 'bug'),
 ('C11', 'lube/var.cpp', '        if (iVar.is(*this))\n            iVar = iVar.copy();\n        int n = iVar.size();', '        iVar = iVar.copy();\n        int n = iVar.size();', None, 'same'),
 ('C11', 'lube/var.cpp', '        if (iVar.is(*this))\n            iVar = iVar.copy();\n        int n = iVar.size();', '        var piece = iVar.is(*this) ? iVar.copy() : iVar;\n        iVar = piece;\n        int n = iVar.size();', None, 'same'),
 ('C17', 'lube/var.cpp', '    mStr = mVar.str();\n', '', None, 'bug'),
 ('C17', 'lube/var.cpp', '    vs << iVar;\n    backTrace(vs);', '    backTrace(vs);', None, 'bug'),
 ('C17', 'lube/var.cpp', '    mVar = var(vs);\n    mStr', '    mVar = iVar;\n    mStr', None, 'same'),
 ('C17', 'lube/var.cpp', '    varstream vs;\n    vs << iVar;\n    backTrace(vs);', '    varstream vs(iVar.copy());\n    backTrace(vs);', None, 'same'),
 ('C18', 'lube/string.cpp', '        if (newSize != oVar.size())\n            oVar.resize(newSize);', '        if (newSize != oVar.size())\n            ;', None, 'bug'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(iVar.size());\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 \'é\' and the like\n        op[i] = std::tolower(ip[i]);', '        oVar = "";\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 \'é\' and the like\n        op[i] = std::tolower(ip[i]);', None, 'bug'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(newSize);', '        oVar = "";\n', None, 'bug'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(newSize);', "        oVar = var(newSize, ' ');\n", None, 'same'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(newSize);\n        op = oVar.ptr<char>();\n        for (int i=0; i<newSize; i++)\n            op[i] = ip[i+leading];', '        oVar = var(newSize, ip+leading);', None, 'same'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(iVar.size());\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 \'é\' and the like\n        op[i] = std::tolower(ip[i]);', "        oVar = iVar.copy();\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::tolower(ip[i]);", None, 'same'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(iVar.size());\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 \'é\' and the like\n        op[i] = std::tolower(ip[i]);', "        oVar = var(iVar.size(), '.');\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::tolower(ip[i]);", None, 'same'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(iVar.size());\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 \'é\' and the like\n        op[i] = std::tolower(ip[i]);', '        var t = "";\n        t.resize(iVar.size());\n        oVar = t;\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 \'é\' and the like\n        op[i] = std::tolower(ip[i]);', None, 'same'),
 ('C18', 'lube/string.cpp', '        op = oVar.ptr<char>();\n        for', '        for', None, 'bug'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(iVar.size());\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 \'é\' and the like\n        op[i] = std::tolower(ip[i]);', "        oVar.resize(iVar.size());\n    }\n    char* ip = const_cast<var&>(iVar).ptr<char>();\n    char* op = oVar.ptr<char>();\n    for (int i=0; i<iVar.size(); i++)\n        // Does not work for UTF-8 'é' and the like\n        op[i] = std::tolower(ip[i]);", None, 'bug'),
 ('C18', 'lube/string.cpp', '        oVar = "";\n        oVar.resize(newSize);', '        oVar.resize(newSize);', None, 'bug'),
 ('C04', 'lube/func.cpp', '    int nOps = cdim > 0 ? (stepO ? oVar.size() / stepO : 0) : 1;\n    for (int i=0; i<nOps; i++)\n    {\n        var iv;', '    int nOps = cdim >= 0 ? (stepO ? oVar.size() / stepO : 0) : 1;\n    for (int i=0; i<nOps; i++)\n    {\n        var iv;', None, 'bug'),
 ('C04', 'lube/func.cpp', '    int nOps = cdim > 0 ? (stepO ? oVar.size() / stepO : 0) : 1;\n    for (int i=0; i<nOps; i++)\n    {\n        var iv;', '    int nOps = 1;\n    if (cdim > 0)\n        nOps = stepO ? oVar.size() / stepO : 0;\n    for (int i=0; i<nOps; i++)\n    {\n        var iv;', None, 'same'),
 ('C04', 'lube/func.cpp', '        (dimO == cdim) ?  oVar[iOffsetO] :  oVar.subview(dimO-cdim, iOffsetO);\n    vector(iv1', '        (dimO != cdim) ?  oVar[iOffsetO] :  oVar.subview(dimO-cdim, iOffsetO);\n    vector(iv1', None, 'bug'),
 ('C04', 'lube/func.cpp', '    vector(iv1, iv2, ov);', '    ;', None, 'bug'),
 ('C04', 'lube/func.cpp', '    vector(iv1, iv2, ov);', '    vector(iv2, iv1, ov);', None, 'bug'),
 ('C04', 'lube/func.cpp', '    scalar(iVar, oVar);\n    return oVar;', '    return oVar;', 1, 'bug'),
 ('C04', 'lube/func.cpp', '    var v = alloc(iVar1, iVar2);', '    var v = alloc(iVar2, iVar1);', None, 'bug'),
 ('C05', 'lube/math.cpp', '            broadcast(iVar, oVar);                                      \\\n            break;                                                      \\', '            broadcast(iVar, oVar);                                      \\\n            ;                                                      \\', 0, 'bug'),
 ('C06', 'lube/math.cpp', '        std::sort(iVar.ptr<char>(), iVar.ptr<char>()+size);\n        break;', '        std::sort(iVar.ptr<char>(), iVar.ptr<char>()+size);\n', None, 'bug'),
 ('C06', 'lube/math.cpp', '                s, iVar[i].ptr<float>(), oVar.ptr<float>(sum)\n            );\n            sum += s;\n        }\n        break;', '                s, iVar[i].ptr<float>(), oVar.ptr<float>(sum)\n            );\n            sum += s;\n        }\n', None, 'bug'),
 ('C06', 'lube/math.cpp', '                s, iVar[i].ptr<cfloat>(), oVar.ptr<cfloat>(sum)\n            );\n            sum += s;\n        }\n        break;', '                s, iVar[i].ptr<cfloat>(), oVar.ptr<cfloat>(sum)\n            );\n            sum += s;\n        }\n', None, 'bug'),
 ('C04', 'lube/func.cpp', '    var v = alloc(iVar1, iVar2);\n    scalar(iVar1, iVar2, v);\n    return v;', '    var v;\n    v = alloc(iVar1, iVar2);\n    this->scalar(iVar1, iVar2, v);\n    return v;', None, 'same'),
 ('C04', 'lube/func.cpp', '    var v = alloc(iVar1, iVar2);\n    scalar(iVar1, iVar2, v);\n    return v;', '    var v = alloc(iVar1, iVar2);\n    return (*this)(iVar1, iVar2, v);', None, 'same'),
 ('C04', 'lube/func.cpp', '    vector(iv1, iv2, ov);', '    if (dimO == cdim)\n    {\n        var e = oVar[iOffsetO];\n        vector(iv1, iv2, e);\n    }\n    else\n        vector(iv1, iv2, ov);', None, 'same'),
 ('C06', 'lube/math.cpp', '        r = iVar.at(0);\n    }\n    return r;', '        r = iVar.at(1);\n    }\n    return r;', None, 'bug'),
 ('C06', 'lube/math.cpp', '        r = iVar.at(0);\n    }\n    return r;', '        r = iVar.at(0).copy();\n    }\n    return r;', None, 'same'),
 ('C19', 'lube/json.cpp', '    vs >> l;\n    if (!vs.fail() && vs.eof())', '    vs >> l;\n    if (vs.fail() && vs.eof())', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'XML_Parse(mParser, "\\n", 1, 0)', 'XML_Parse(mParser, "\\n", 2, 0)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'XML_Parse(mParser, "\\n", 1, 0)', 'XML_Parse(mParser, "\\n ", 2, 0)', None, 'same'),
 ('C19', 'lube/json.cpp', '    for (int i=0; i<iVar.size(); i++)\n    {\n        r.push(nil);', '    for (int i=1; i<iVar.size(); i++)\n    {\n        r.push(nil);', None, 'bug'),
 ('C19', 'lube/json.cpp', '    for (int i=0; i<iVar.size(); i++)\n    {\n        r.push(nil);', '    for (int i=0; i<iVar.size()-1; i++)\n    {\n        r.push(nil);', None, 'bug'),
 ('C19', 'lube/json.cpp', '                arr = untyped(arr);\n', '                ;\n', None, 'bug'),
 ('C19', 'lube/json.cpp', '            if (arr && (arr.atype() != TYPE_VAR)\n                && (val.type() != arr.atype()))\n                // A typed array would cast the value\n                arr = untyped(arr);\n', '', None, 'bug'),
 ('C19', 'lube/json.cpp', '                && (val.type() != arr.atype()))', '                && (val.type() == arr.atype()))', None, 'bug'),
 ('C19', 'lube/json.cpp', '        r.push(nil);\n        r[i] = iVar.at(i);', '        r[i] = iVar.at(i);', None, 'same'),
 ('C19', 'lube/json.cpp', '            if (arr && (arr.atype() != TYPE_VAR)\n                && (val.type() != arr.atype()))\n                // A typed array would cast the value\n                arr = untyped(arr);\n            arr.push(val);', '            if (arr)\n            {\n                bool fits = arr.atype() == TYPE_VAR || val.type() == arr.atype();\n                if (!fits)\n                    arr = untyped(arr);\n            }\n            arr.push(val);', None, 'same'),
 ('C20', 'lube/xmlfile.cpp', '    mParser = XML_ParserCreate(0);', '    ;', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '        elem[DATA] = nil;', '        ;', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '        if (!s)', '        if (s)', 1, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '        s = XML_Parse(mParser, f.str(), f.size(), 0);', '        ;', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'XML_Parse(mParser, "\\n", 1, 0)', 'XML_Parse(mParser, "\\n", 1, 1)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '    if (!elem)', '    if (elem)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', 'XML_Parse(mParser, f.str(), 0, 1)', 'XML_Parse(mParser, f.str(), 1, 1)', None, 'bug'),
 ('C20', 'lube/xmlfile.cpp', '(mStack.size() != 0)', '(mStack.size() != 1)', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', 'int size = sfInfo.frames * sfInfo.channels;', 'int size = sfInfo.frames;', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', 'data.ptr<float>(), sfInfo.frames);', 'data.ptr<float>(), sfInfo.frames - 1); nGot++;', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', '    if (sfInfo.channels != 1)', '    if (sfInfo.channels > 2)', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', '{(int)sfInfo.frames, sfInfo.channels}', '{sfInfo.channels, (int)sfInfo.frames}', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', '    mAttr["rate"] = sfInfo.samplerate;', '    mAttr["rate"] = sfInfo.channels;', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', '    mAttr["rate"] = sfInfo.samplerate;', '', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', 'iVar.dim() > 1 ? iVar.shape(0) : 1;', 'iVar.dim() > 1 ? iVar.shape(1) : 1;', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', '        var tr = transpose(iVar);', '        var tr = iVar;', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', '    if (sfInfo.channels != 1)', '    if (sfInfo.channels > 1)', None, 'same'),
 ('C24', 'lube/sndfile.cpp', 'sf_count_t nGot = sf_readf_float(snd.get(), data.ptr<float>(), sfInfo.frames);', 'sf_count_t nGot = sf_read_float(snd.get(), data.ptr<float>(), size) / sfInfo.channels;', None, 'same'),
 ('C24', 'lube/gnuplot.cpp', 'for (int j=0; j<line.size(); j++)', 'for (int j=1; j<line.size(); j++)', None, 'bug'),
 ('C24', 'lube/gnuplot.cpp', 'j<line.shape(1)', 'j<line.shape(0)', None, 'bug'),
 ('C24', 'lube/gnuplot.cpp', 'line(i, j)', 'line(j, i)', None, 'bug'),
 ('C24', 'lube/gnuplot.cpp', '                puts("e");', '', 0, 'bug'),
 ('C24', 'lube/gnuplot.cpp', '                puts("e");', '', 1, 'bug'),
 ('C24', 'lube/gnuplot.cpp', '                    vs << "\\n";', '', None, 'bug'),
 ('C24', 'lube/gnuplot.cpp', 'vs << " " << line(i, j);', 'vs << line(i, j);', None, 'bug'),
 ('C24', 'lube/gnuplot.cpp', '    int n = std::fputs("\\n", mStream);', '    int n = 0;', None, 'bug'),
 ('C24', 'lube/gnuplot.cpp', '        vs << "set output " << iFile;', '        vs << "set output ";', None, 'bug'),
 ('C24', 'lube/gnuplot.cpp', 'i<iVar.size(); i++', 'i<iVar.size()-1; i++', None, 'bug'),
 ('C24', 'lube/curl.cpp', 'iSize * iNMemb', 'iSize', None, 'bug'),
 ('C24', 'lube/curl.cpp', 'mData.append(', 'mData = (', None, 'bug'),
 ('C24', 'lube/curl.cpp', '    return mData;', '    return nil;', None, 'bug'),
 ('C24', 'lube/path.cpp', 'iVal ? bits(it->path()) : nil', 'iVal ? nil : bits(it->path())', 0, 'bug'),
 ('C24', 'lube/path.cpp', 'iVal ? bits(it->path()) : nil', 'iVal ? nil : bits(it->path())', 1, 'bug'),
 ('C24', 'lube/path.cpp', 'val[1] = iPath.stem()', 'val[1] = iPath.filename()', None, 'bug'),
 ('C24', 'lube/path.cpp', 'val[2] = iPath.extension()', 'val[3] = iPath.extension()', None, 'bug'),
 ('C24', 'lube/path.cpp', 'fs::is_directory(*it) && !fs::is_symlink(*it)', 'fs::is_directory(*it)', None, 'bug'),
 ('C24', 'lube/path.cpp', 'fs::is_directory(*it) && !fs::is_symlink(*it)', '!fs::is_symlink(*it)', None, 'bug'),
 ('C24', 'lube/path.cpp', 'dir[it->path().filename().string().c_str()] = tree(*it)', 'dir[it->path().stem().string().c_str()] = tree(*it)', None, 'bug'),
 ('C24', 'lube/path.cpp', 'fs::recursive_directory_iterator it(mPath)', 'fs::recursive_directory_iterator it(mPath, fs::directory_options::follow_directory_symlink)', None, 'bug'),
 ('C24', 'lube/path.cpp', '    if (!fs::is_directory(mPath))', '    if (fs::is_directory(mPath))', None, 'bug'),
 ('C24', 'lube/path.cpp', '    if (!exists(mPath))', '    if (false)', 0, 'same'),
 ('C24', 'lube/path.cpp', '    if (!exists(mPath))', '    if (exists(mPath))', 0, 'bug'),
 ('C24', 'lube/module.cpp', 'lib << "lib"', 'lib << "libu"', None, 'bug'),
 ('C24', 'lube/module.cpp', '"factory")', '"Factory")', None, 'bug'),
 ('C24', 'lube/path.cpp', 'fs::is_directory(*it) && !fs::is_symlink(*it)', '!fs::is_symlink(*it)', None, 'bug'),
 ('C24', 'lube/path.cpp', 'fs::is_directory(*it) && !fs::is_symlink(*it)', 'it->is_directory() && !it->is_symlink()', None, 'same'),
 ('C24', 'lube/path.cpp', 'fs::is_directory(*it) && !fs::is_symlink(*it)', '!fs::is_symlink(*it) && fs::is_directory(*it)', None, 'same'),
 ('C24', 'lube/path.cpp', '    for (fs::directory_iterator it(mPath); it != end; it++)\n        dir[it->path().string().c_str()] = iVal ? bits(it->path()) : nil;', '    for (const auto& e : fs::directory_iterator(mPath))\n    {\n        std::string s = e.path().string();\n        if (iVal)\n            dir[s.c_str()] = bits(e.path());\n        else\n            dir[s.c_str()] = nil;\n    }', None, 'same'),
 ('C24', 'lube/gnuplot.cpp', '                for (int j=0; j<line.size(); j++)\n                {\n                    varstream vs;\n                    vs << line.at(j);\n                    puts(vs.str());\n                }\n', '                {\n                    int j = 0;\n                    while (j < line.size())\n                    {\n                        varstream vs;\n                        vs << line[j++];\n                        puts(vs.str());\n                    }\n                }\n', None, 'same'),
 ('C24', 'lube/gnuplot.cpp', '    int s = std::fputs(iStr, mStream);\n    int n = std::fputs("\\n", mStream);\n    if (s < 0 || n < 0)', "    int s = std::fputs(iStr, mStream);\n    int n = std::fputc('\\n', mStream);\n    if (s < 0 || n < 0)", None, 'same'),
 ('C24', 'lube/curl.cpp', '    var str(s, iPtr);\n    mData.append(str);', '    mData.append(var(s, iPtr));', None, 'same'),
 ('C24', 'lube/module.cpp', '    lib << "lib" << iType.str() << ".so";', '    lib << "lib";\n    lib << iType << ".so";', None, 'same'),
 ('C24', 'lube/module.cpp', '    lib << "lib" << iType.str() << ".so";', '    lib << "lib" << iType.str();\n', None, 'bug'),
 ('C24', 'lube/sndfile.cpp', '    if (iVar.dim() > 1)\n    {\n        var tr = transpose(iVar);\n        n = sf_writef_float(snd.get(), tr.ptr<float>(), frames);\n    }\n    else\n        n = sf_writef_float(snd.get(), iVar.ptr<float>(), frames);', '    var tr = iVar.dim() > 1 ? transpose(iVar) : iVar;\n    n = sf_writef_float(snd.get(), tr.ptr<float>(), frames);', None, 'same'),
 ('C24', 'lube/path.cpp', '        dir[mPath.string().c_str()] = iVal ? bits(mPath) : nil;', '        ;', None, 'bug'),
 ('C24', 'lube/path.cpp', 'dir[it->path().filename().string().c_str()] = tree(*it);', ';', None, 'bug'),
 ('C23', 'lube/inifile.cpp', "f[0] == '#'", "f[1] == '#'", None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', 'DFTI_DOUBLE, DFTI_COMPLEX, 1, iSize', 'DFTI_DOUBLE, DFTI_COMPLEX, 2, iSize', None, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '        mImpl->inverseType = cdouble(0.0, 0.0);\n', '', 0, 'bug'),
 ('C15', 'lube/dft-mkl.cpp', '        mImpl->inverseType = cdouble(0.0, 0.0);\n', '', 1, 'bug'),
 ('C24', 'lube/path.cpp', '    for (fs::directory_iterator it(mPath); it != end; it++)\n        dir[it->path().string().c_str()] = iVal ? bits(it->path()) : nil;', '    for (fs::directory_iterator it(mPath); it != end; ++it)\n    {\n        const fs::path& p = it->path();\n        const std::string key = p.string();\n        var val;\n        if (iVal)\n            val = bits(p);\n        dir[key.c_str()] = val;\n    }', None, 'same'),
 ('C24', 'lube/path.cpp', 'var bits(fs::path iPath)\n{\n    var val;\n    val[2] = iPath.extension().string().c_str();\n    val[1] = iPath.stem().string().c_str();\n    val[0] = iPath.parent_path().string().c_str();\n    return val;\n}', 'var bits(const fs::path& iPath)\n{\n    var val;\n    val.push(iPath.parent_path().string().c_str());\n    val.push(iPath.stem().string().c_str());\n    val.push(iPath.extension().string().c_str());\n    return val;\n}', None, 'same'),
 ('C24', 'lube/path.cpp', 'var bits(fs::path iPath)\n{', 'static std::string str(const fs::path& iPath) { return iPath.string(); }\nvar bits(fs::path iPath)\n{', None, 'same'),
 ('C24', 'lube/path.cpp', '    for (fs::directory_iterator it(iPath); it != end; it++)\n        if (fs::is_directory(*it) && !fs::is_symlink(*it))\n            dir[it->path().filename().string().c_str()] = tree(*it);\n        else\n            dir[it->path().filename().string().c_str()] = nil;', '    for (fs::directory_iterator it(iPath); it != end; it++)\n    {\n        std::string name = it->path().filename().string();\n        bool down = fs::is_directory(*it) && !fs::is_symlink(*it);\n        dir[name.c_str()] = down ? tree(it->path()) : nil;\n    }', None, 'same'),
 ('C24', 'lube/gnuplot.cpp', '                varstream vs;\n                for (int j=0; j<line.shape(1); j++)\n                {\n                    for (int i=0; i<line.shape(0); i++)\n                        vs << " " << line(i, j);\n                    vs << "\\n";\n                }\n                puts(vs.str());\n', '                int rows = line.shape(0);\n                int cols = line.shape(1);\n                for (int j=0; j<cols; j++)\n                {\n                    varstream vs;\n                    for (int i=0; i<rows; i++)\n                        vs << line(i, j) << " ";\n                    puts(vs.str());\n                }\n', None, 'same'),
 ('C24', 'lube/gnuplot.cpp', '    for (int i=0; i<iVar.size(); i++)\n    {\n        line = iVar[i];', '    int n = iVar.size();\n    for (int i=0; i!=n; ++i)\n    {\n        var line = iVar.at(i);', None, 'same'),
 ('C24', 'lube/curl.cpp', 'Curly::transfer(var iURL)\n{\n    Easy easy(iURL);\n    var stuff = easy.perform();\n    return stuff;', 'Curly::transfer(var iURL)\n{\n    Easy easy(iURL);\n    return easy.perform();', None, 'same'),
 ('C24', 'lube/module.cpp', '    varstream lib;\n    lib << "lib" << iType.str() << ".so";', '    var lib = "lib";\n    lib.append(iType.str());\n    lib.append(".so");', None, 'same'),
 ('C24', 'lube/sndfile.cpp', '    int size = sfInfo.frames * sfInfo.channels;\n    var data = 0.0f;\n    data.resize(size);', '    var data(static_cast<int>(sfInfo.channels * sfInfo.frames), 0.0f);', None, 'same'),
 ('C24', 'lube/sndfile.cpp', '    var data = 0.0f;\n    data.resize(size);', '    var data = 0.0;\n    data.resize(size);', None, 'bug'),
 ('C19', 'lube/json.cpp', 'val = doRaw(iStream);', ';', None, 'bug'),
 ('C19', 'lube/json.cpp', '    vs.seekg(0);\n    double', '    vs.seekg(1);\n    double', None, 'bug'),
 ('C19', 'lube/json.cpp', '    vs.seekg(0);\n    double', '    double', None, 'bug'),
 ('C24', 'lube/graph.cpp', 'ret = add_edge(iVertex1, iVertex2, mGraph);', ';', None, 'bug'),
 ('C24', 'lube/graph.cpp', 'ret = add_edge(iVertex1, iVertex2, mGraph);', 'ret = add_edge(iVertex2, iVertex1, mGraph);', None, 'bug'),
 ('C24', 'lube/graph.cpp', 'write_graphviz(ofs, mGraph, lw);', ';', None, 'bug'),
 ('C24', 'lube/graph.cpp', '    return v;\n}', '    return 0;\n}', None, 'bug'),
 ('C24', 'lube/graph.cpp', 'vertex v = add_vertex(mGraph);', 'vertex v = 0;', None, 'bug'),
 ('C24', 'lube/module.cpp', 'mInstance.push_back(inst);\n    return *(mInstance.back());', 'mInstance.push_back(inst);\n    return *(mInstance.front());', None, 'bug'),
 ('C24', 'lube/module.cpp', 'return *(mInstance.back());', 'return *inst;', None, 'same'),
 ('C24', 'lube/graph.cpp', '    std::pair<edge, bool> ret;\n    ret = add', '    add', None, 'same'),
 ('C24', 'lube/graph.cpp', '    vertex v = add_vertex(mGraph);\n    return v;', '    return add_vertex(mGraph);', None, 'same'),
 ('C24', 'lube/graph.cpp', '    LabelWriter lw(mGraph);\n    write_graphviz(ofs, mGraph, lw);\n', '    write_graphviz(ofs, mGraph, LabelWriter(mGraph));\n', None, 'same'),
 ('C11', 'lube/var.cpp', '        for (int i=size()-1; i>iIndex; i--)\n            at(i) = at(i-1);\n        at(iIndex) = iVar;', '        for (int i=size()-1; i>iIndex; i--)\n            if (i > 1) at(i) = at(i-1);\n        at(iIndex) = iVar;', None, 'bug'),
 ('C11', 'lube/var.cpp', '        for (int i=size()-1; i>iIndex; i--)\n            at(i) = at(i-1);\n        at(iIndex) = iVar;', '        for (int i=size()-1; i>iIndex; i--)\n            if (i > 0) at(i) = at(i-1);\n        at(iIndex) = iVar;', None, 'same'),
 ('C11', 'lube/var.cpp', '            heap()->key(i) = heap()->key(i-1);\n            at(i) = at(i-1);\n', '            heap()->key(i) = heap()->key(i-1);\n            if (i != iIndex+1) at(i) = at(i-1);\n', None, 'bug'),
 ('C11', 'lube/var.cpp', '            heap()->key(i) = heap()->key(i-1);\n            at(i) = at(i-1);\n', '            if (i != iIndex+2) heap()->key(i) = heap()->key(i-1);\n            at(i) = at(i-1);\n', None, 'bug'),
 ('C11', 'lube/var.cpp', '        for (int i=size()-1; i>iIndex+n-1; i--)\n            at(i) = at(i-n);', '        for (int i=size()-1; i>iIndex+n-1; i--)\n            if (i != 2*n) at(i) = at(i-n);', None, 'bug'),
 ('C11', 'lube/var.cpp', '        for (int i=size()-1; i>iIndex+n-1; i--)\n            at(i) = at(i-n);', '        for (int i=size()-1; i>iIndex+n-1; i--)\n            { if (i < n) break; at(i) = at(i-n); };', None, 'same'),
 ('C11', 'lube/var.cpp', '        if (heap() && atype<pair>())\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);', '        if (heap() && atype<pair>() && i > iIndex+1 - (iIndex == 0))\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);', None, 'bug'),
 ('C11', 'lube/var.cpp', '        if (heap() && atype<pair>())\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);', '        if (heap() && atype<pair>() && i > iIndex+1)\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);', None, 'bug'),
 ('C11', 'lube/var.cpp', '        if (heap() && atype<pair>())\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);', '        if (heap() && atype<pair>() && i < size()-1)\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);', None, 'bug'),
 ('C11', 'lube/var.cpp', '        if (heap() && atype<pair>())\n            heap()->key(i-1) = heap()->key(i);\n        at(i-1) = at(i);\n    }\n    resize(size()-1);', '        if (heap() && atype<pair>())\n            heap()->key(i-1) = heap()->key(i);\n        if (i % 7) at(i-1) = at(i);\n    }\n    resize(size()-1);', None, 'bug'),
]
