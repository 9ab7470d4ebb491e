V=[]
X="lube/xmlfile.cpp"; U="lube/utf8.cpp"; ST="lube/stream.cpp"; T="lube/txtfile.cpp"; M="lube/module.cpp"; SN="lube/sndfile.cpp"
CU="lube/curl.cpp"; I="lube/inifile.cpp"; P="lube/path.cpp"; D="lube/dft-mkl.cpp"; G="lube/gedfile.cpp"; C="lube/config.cpp"
def same(pid,F,*edits):
    V.append((pid,F,[(F,)+tuple(e) if len(e)==3 else (F,e[0],e[1],0) for e in edits],None,None,"same"))
# 0 xml handler
same("C20",X,("""    var elem = element();
    if (mStack)
        mStack.top()[DATA].push(elem);
    else
        mVar = elem;
    mStack.push(elem);
    elem[NAME] = iName;
    while (*iAtts)
    {
        elem[ATTR][iAtts[0]] = iAtts[1];
        iAtts += 2;
    }
""","""    var elem = element();
    elem[NAME] = iName;
    for (int i=0; iAtts[i]; i+=2)
        elem[ATTR][iAtts[i]] = iAtts[i+1];
    if (!mStack)
        mVar = elem;
    else
        mStack.top()[DATA].push(elem);
    mStack.push(elem);
"""))
# 1
same("C20",X,("""    while (*iAtts)
    {
        elem[ATTR][iAtts[0]] = iAtts[1];
        iAtts += 2;
    }
""","""    for (const XML_Char** att = iAtts; *att; att += 2)
    {
        const XML_Char* key = att[0];
        const XML_Char* value = att[1];
        elem[ATTR][key] = value;
    }
"""))
# 2
same("C20",X,("""    if ((iLen == 1) && (*iStr == '\\n'))
        return;
    var str(iLen, iStr);
    mStack.top()[DATA].push(str);
""","""    const bool lineEnd = (iLen == 1) && (iStr[0] == '\\n');
    if (!lineEnd)
        mStack.top()[DATA].push(var(iLen, iStr));
"""))
# 3
same("C20",X,("""    if (mStack.top()[NAME] != iName)
        throw error("Expat::endElementHandler: malformed xml");
    mStack.pop();
""","""    var name = mStack.top()[NAME];
    if (!(name == iName))
        throw error("Expat::endElementHandler: malformed xml");
    mStack.pop();
"""))
# 4 parse helper
same("C17",X,("""    while (f.getline(is))
    {
        s = XML_Parse(mParser, f.str(), f.size(), 0);
        if (!s)
            throw error("xmlfile::parse(): Error!");
        // The line end separates words in a tag
        s = XML_Parse(mParser, "\\n", 1, 0);
        if (!s)
            throw error("xmlfile::parse(): Error!");
    }
""","""    while (f.getline(is))
        // The line end separates words in a tag
        if (!XML_Parse(mParser, f.str(), f.size(), 0) ||
            !XML_Parse(mParser, "\\n", 1, 0))
            throw error("xmlfile::parse(): Error!");
"""))
# 5
same("C17",X,("""    while (f.getline(is))
    {
        s = XML_Parse(mParser, f.str(), f.size(), 0);
        if (!s)
            throw error("xmlfile::parse(): Error!");
        // The line end separates words in a tag
        s = XML_Parse(mParser, "\\n", 1, 0);
        if (!s)
            throw error("xmlfile::parse(): Error!");
    }
    if (is.bad())
        throw error("xmlfile::read(): Read failed");
    s = XML_Parse(mParser, f.str(), 0, 1);
    if (!s)
        throw error("xmlfile::parse(): Error!");
""","""    while (f.getline(is))
    {
        check(XML_Parse(mParser, f.str(), f.size(), 0));
        // The line end separates words in a tag
        check(XML_Parse(mParser, "\\n", 1, 0));
    }
    if (is.bad())
        throw error("xmlfile::read(): Read failed");
    s = XML_Parse(mParser, f.str(), 0, 1);
    check(s);
"""),("""var Expat::parse(const char* iFile)
{""","""static void check(XML_Status iStatus)
{
    if (iStatus == XML_STATUS_ERROR)
        throw error("xmlfile::parse(): Error!");
}


var Expat::parse(const char* iFile)
{"""))
# 6
same("C20",X,("""    if (mStack.size() != 0)
        throw error("xmlfile::parse(): Short file?");

    return mVar;""","""    if (mStack.size() == 0)
        return mVar;
    throw error("xmlfile::parse(): Short file?");"""))
# 7 writer
same("C20",X,("""    for (int i=0; i<iVar.size(); i++)
        switch (str[i])
        {
        case '&':
            iOS << "&amp;";
            break;
        case '<':
            iOS << "&lt;";
            break;
        case '>':
            iOS << "&gt;";
            break;
        case '\\'':
            iOS << "&apos;";
            break;
        case '"':
            iOS << "&quot;";
            break;
        default:
            iOS.put(str[i]);
            break;
        }
}""","""    const int n = iVar.size();
    for (int i=0; i<n; i++)
    {
        const char c = str[i];
        const char* entity =
            (c == '&')  ? "&amp;" :
            (c == '<')  ? "&lt;" :
            (c == '>')  ? "&gt;" :
            (c == '\\'') ? "&apos;" :
            (c == '"')  ? "&quot;" : 0;
        if (entity)
            iOS << entity;
        else
            iOS << c;
    }
}"""))
# 8
same("C20",X,("""    for (int i=0; i<iVar.size(); i++)
        switch (str[i])
        {""","""    for (const char* p = str; p != str + iVar.size(); ++p)
        switch (*p)
        {"""),("""            iOS.put(str[i]);
            break;""","""            iOS << *p;
            break;"""))
# 9 writeElem
same("C20",X,("""    if (attr)
        for (int i=0; i<attr.size(); i++)
        {
            iOS << " " << attr.key(i).str() << "=\\"";
            escape(iOS, attr[i]);
            iOS << "\\"";
        }
    if (!data)
    {
        iOS << " />";
        return true;
    }
    iOS << ">";
    for (int i=0; i<data.size(); i++)
        if (!writeElem(iOS, data[i]))
            escape(iOS, data[i]);
    iOS << "</" << name.str() << ">";
    return true;
""","""    const int nAttr = attr ? attr.size() : 0;
    for (int i=0; i<nAttr; i++)
    {
        var key = attr.key(i);
        iOS << " " << key.str() << "=\\"";
        escape(iOS, attr[i]);
        iOS << '"';
    }
    if (data)
    {
        iOS << ">";
        for (int i=0; i<data.size(); i++)
        {
            var child = data[i];
            if (!writeElem(iOS, child))
                escape(iOS, child);
        }
        iOS << "</" << name.str() << ">";
    }
    else
        iOS << " />";
    return true;
"""))
# 10
same("C20",X,("""    if ((iVar.size() != 4) || (iVar[TYPE] != "text"))
        return false;
""","""    const bool isElement = (iVar.size() == 4) && (iVar[TYPE] == "text");
    if (!isElement)
        return false;
"""))
# 11
same("C17",X,("""    if (!writeElem(os, iVar))
        throw error("xmlwriter::write(): Top level not element");
    os << std::endl;
    os.close();
    if (os.fail())
        throw error("xmlwriter::write(): Write failed");
""","""    const bool written = writeElem(os, iVar);
    if (!written)
        throw error("xmlwriter::write(): Top level not element");
    os << "\\n";
    os.close();
    if (!os)
        throw error("xmlwriter::write(): Write failed");
"""))
# 12
same("C17",X,("""    std::ofstream os(iFile, std::ofstream::out);
    if (os.fail())
        throw error("xmlwriter::write(): Open failed");
""","""    std::ofstream os;
    os.open(iFile, std::ofstream::out);
    if (!os.is_open())
        throw error("xmlwriter::write(): Open failed");
"""))
# 13 unique_ptr-ish: handlers in helper
same("C16",X,("""    // Set the callbacks to the static functions
    XML_SetUserData(mParser, this);
    XML_SetDefaultHandler(mParser, DefaultHandler);
    XML_SetXmlDeclHandler(mParser, XmlDeclHandler);
    XML_SetStartElementHandler(mParser, StartElementHandler);
    XML_SetEndElementHandler(mParser, EndElementHandler);
    XML_SetCharacterDataHandler(mParser, CharacterDataHandler);
}""","""    // Set the callbacks to the static functions
    XML_SetUserData(mParser, this);
    XML_SetElementHandler(mParser, StartElementHandler, EndElementHandler);
    XML_SetDefaultHandler(mParser, DefaultHandler);
    XML_SetXmlDeclHandler(mParser, XmlDeclHandler);
    XML_SetCharacterDataHandler(mParser, CharacterDataHandler);
}"""))
# 14
same("C16",X,("""    mParser = XML_ParserCreate(0);
    if (!mParser)
        throw error("xmlfile: Cannot create parser");
""","""    XML_Parser parser = XML_ParserCreate(NULL);
    if (parser == NULL)
        throw error("xmlfile: Cannot create parser");
    mParser = parser;
"""))
# 15 DefaultHandler
same("C20",X,("""    if (std::all_of(iStr, iStr+iLen, [](char c) { return std::isspace((unsigned char)c); }))
        return;
""","""    bool blank = true;
    for (int i=0; i<iLen && blank; i++)
        blank = std::isspace((unsigned char)iStr[i]);
    if (blank)
        return;
"""))
# 16 element
same("C20",X,("""        elem[DATA] = nil;
        elem[NAME] = nil;
        elem[ATTR] = nil;
        elem[TYPE] = "text";
    }
    return elem.copy();""","""        elem[TYPE] = "text";
        elem[ATTR] = nil;
        elem[NAME] = nil;
        elem[DATA] = nil;
    }
    var fresh = elem.copy();
    return fresh;"""))
# ---- utf8
# 17
same("C18",U,("""    if ((iStr[0] & 0x80) == 0x00) // 0xxxxxxx
        return 1;

    // Otherwise there are 3 other length cases
    int len = 0;
    if ((iStr[0] & 0xE0) == 0xC0) // 110xxxxx
        len = 2;
    else if ((iStr[0] & 0xF0) == 0xE0) // 1110xxxx
        len = 3;
    else if ((iStr[0] & 0xF8) == 0xF0) // 11110xxx
        len = 4;
    if (len == 0)
        return 0;
""","""    const unsigned char lead = iStr[0];
    if (lead < 0x80)
        return 1;

    // Otherwise there are 3 other length cases
    int len;
    if (lead >= 0xC0 && lead < 0xE0)
        len = 2;
    else if (lead >= 0xE0 && lead < 0xF0)
        len = 3;
    else if (lead >= 0xF0 && lead < 0xF8)
        len = 4;
    else
        return 0;
"""))
# 18
same("C18",U,("""    for (int i=1; i<len; i++)
        if ((iStr[i] & 0xC0) != 0x80) // 10xxxxxx
            return 0;
""","""    int i = 1;
    while (i < len)
    {
        const int top = iStr[i] & 0xC0;
        if (top != 0x80) // 10xxxxxx
            return 0;
        ++i;
    }
"""))
# 19
same("C18",U,("""    int clen = 0;
    int code = 0;
    char* s = ptr<char>();
    while (clen < size())
    {
        int l = utf8len(s+clen);
        if (l == 0)
            return -1;
        clen += l;
        code += 1;
    }
    if (clen != size())
        return -1;
    return code;""","""    const int n = size();
    const char* s = ptr<char>();
    int code = 0;
    int clen = 0;
    for (; clen < n; ++code)
    {
        const int l = utf8len(&s[clen]);
        if (!l)
            return -1;
        clen += l;
    }
    return (clen == n) ? code : -1;"""))
# 20
same("C18",U,("""    char* s = ptr<char>();
    while (clen < size())
    {
        int l = utf8len(s+clen);
        if (l == 0)
            return -1;
        clen += l;
        code += 1;
    }
    if (clen != size())
        return -1;
    return code;""","""    const char* s = ptr<char>();
    const char* const end = s + size();
    while (s < end)
    {
        int l = utf8len(s);
        if (l == 0)
            return -1;
        s += l;
        code++;
    }
    if (s != end)
        return -1;
    return code;"""))
# ---- stream
# 21
same("C21",ST,("""    if (iInt != traits_type::eof())
        mVar.push(iInt);
    return iInt;""","""    if (traits_type::eq_int_type(iInt, traits_type::eof()))
        return iInt;
    mVar.push(iInt);
    return iInt;"""))
# 22
same("C21",ST,("""    if (mInd < mVar.size())
        return traits_type::to_int_type(mVar[mInd++].get<char>());
    return traits_type::eof();""","""    const int c = underflow();
    if (c != traits_type::eof())
        mInd++;
    return c;"""))
# 23
same("C21",ST,("""    if (mInd < mVar.size())
        return traits_type::to_int_type(mVar[mInd].get<char>());
    return traits_type::eof();""","""    if (mInd >= mVar.size())
        return traits_type::eof();
    const char c = mVar[mInd].get<char>();
    return (unsigned char)c;"""))
# 24
same("C21",ST,("""    if (mInd > 0)
    {
        int c = traits_type::to_int_type(mVar[mInd-1].get<char>());
        if ((iInt == traits_type::eof()) || (iInt == c))
        {
            mInd--;
            return c;
        }
    }
    return traits_type::eof();""","""    if (mInd == 0)
        return traits_type::eof();
    const int c = traits_type::to_int_type(mVar[mInd-1].get<char>());
    if ((iInt != traits_type::eof()) && (iInt != c))
        return traits_type::eof();
    --mInd;
    return c;"""))
# 25
same("C21",ST,("""    if ((iPos < 0) || (iPos > mVar.size()))
        return std::streampos(std::streamoff(-1));
    mInd = iPos;
    return iPos;""","""    const std::streamoff pos = iPos;
    if (pos >= 0 && pos <= mVar.size())
    {
        mInd = pos;
        return iPos;
    }
    return std::streampos(std::streamoff(-1));"""))
# 26
same("C21",ST,("""    if (iVar)
        mVar = iVar.array();
    else
    {
        mVar = "";
        mVar.array();
    }

    // Set""","""    mInd = 0;
    if (!iVar)
        iVar = "";
    mVar = iVar.array();

    // Set"""),("""    setg(0, 0, 0);
    mInd = 0;
""","""    setg(0, 0, 0);
"""))
# ---- txtfile
# 27
same("C17",T,("""    while (f.getline(is))
        o.push(f.copy());
    if (is.bad())
        throw error("txtfile::read(): Read failed");
    return o;""","""    for (;;)
    {
        f.getline(is);
        if (!f)
            break;
        var line = f.copy();
        o.push(line);
    }
    if (!is.bad())
        return o;
    throw error("txtfile::read(): Read failed");"""))
# 28
same("C17",T,("""    for (int i=0; i<iVar.size(); i++)
        os << iVar.at(i) << std::endl;
    os.close();
    if (os.fail())
        throw error("txtfile::write(): Write failed");""","""    for (int i=0; i<iVar.size(); i++)
        os << iVar.at(i) << '\\n';
    os.flush();
    const bool failed = os.fail();
    os.close();
    if (failed || os.fail())
        throw error("txtfile::write(): Write failed");"""))
# 29
same("C17",T,("""    std::ifstream is(iFile.str(), std::ifstream::in);
    if (is.fail())
        throw error("txtfile::read(): Open failed");
""","""    const char* name = iFile.str();
    std::ifstream is(name);
    if (!is)
        throw error("txtfile::read(): Open failed");
"""))
# ---- module
# 30
same("C16",M,("""    if ((dle = dlerror()) != NULL)
        throw error(dle);
    if (!mHandle)
        throw error("module::module(): dlopen failed");
""","""    if (!mHandle)
    {
        dle = dlerror();
        if (dle)
            throw error(dle);
        throw error("module::module(): dlopen failed");
    }
"""))
# 31
same("C16",M,("""    *(void **)(&mFactory) = dlsym(mHandle, "factory");
    if ((dle = dlerror()) != NULL)
    {
        var e = dle;
        dlclose(mHandle);
        throw error(e);
    }
""","""    void* symbol = dlsym(mHandle, "factory");
    dle = dlerror();
    if (dle != NULL)
    {
        var message = dle;
        dlclose(mHandle);
        mHandle = 0;
        throw error(message);
    }
    *(void **)(&mFactory) = symbol;
"""))
# 32
same("C16",M,("""    for (size_t i=0; i<mInstance.size(); i++)
        delete mInstance[i];
    dlclose(mHandle);""","""    for (Module* instance : mInstance)
        delete instance;
    mInstance.clear();
    dlclose(mHandle);"""))
# 33
same("C16",M,("""    for (size_t i=0; i<mInstance.size(); i++)
        delete mInstance[i];
    dlclose(mHandle);""","""    while (!mInstance.empty())
    {
        delete mInstance.back();
        mInstance.pop_back();
    }
    dlclose(mHandle);"""))
# 34
same("C16",M,("""    mInstance.push_back(inst);
    return *(mInstance.back());""","""    mInstance.push_back(inst);
    return *inst;"""))
# ---- sndfile
# 35
same("C17",SN,("""    sf_count_t nGot = sf_readf_float(snd.get(), data.ptr<float>(), sfInfo.frames);
    snd.reset();
    if (nGot != sfInfo.frames)
        throw error("sndfile::read: Size fuckup");
""","""    const sf_count_t nGot =
        sf_readf_float(snd.get(), data.ptr<float>(), sfInfo.frames);
    const bool complete = (nGot == sfInfo.frames);
    if (!complete)
        throw error("sndfile::read: Size fuckup");
"""))
# 36 scope
same("C17",SN,("""    SNDHandle snd(sf_open(iFile.str(), SFM_READ, &sfInfo), sf_close);
    if (!snd)
        throw error("sndfile::read: Failed to open file");
""","""    SNDFILE* file = sf_open(iFile.str(), SFM_READ, &sfInfo);
    if (!file)
        throw error("sndfile::read: Failed to open file");
    SNDHandle snd(file, sf_close);
"""))
# 37
same("C17",SN,("""    if (iVar.dim() > 1)
    {
        var tr = transpose(iVar);
        n = sf_writef_float(snd.get(), tr.ptr<float>(), frames);
    }
    else
        n = sf_writef_float(snd.get(), iVar.ptr<float>(), frames);
    snd.reset();
    if (frames != n)
        throw error("sndfile::write: Size fuckup");""","""    var data = (iVar.dim() > 1) ? transpose(iVar) : iVar;
    n = sf_writef_float(snd.get(), data.ptr<float>(), frames);
    snd.reset();
    if (n != frames)
        throw error("sndfile::write: Size fuckup");"""))
# ---- curl
# 38
same("C16",CU,("""    CURLcode res = curl_easy_perform(mHandle);
    if (res != CURLE_OK)
    {
        var err = curl_easy_strerror(res);
        throw error(err);
    }
    return mData;""","""    const CURLcode res = curl_easy_perform(mHandle);
    if (res == CURLE_OK)
        return mData;
    throw error(curl_easy_strerror(res));"""))
# 39
same("C16",CU,("""    Easy easy(iURL);
    var stuff = easy.perform();
    return stuff;""","""    return Easy(iURL).perform();"""))
# 40
same("C16",CU,("""    size_t s = iSize * iNMemb;
    var str(s, iPtr);
    mData.append(str);
    return s;""","""    const size_t bytes = iNMemb * iSize;
    for (size_t i=0; i<bytes; i++)
        mData.push(iPtr[i]);
    return bytes;"""))
# ---- ini
# 41
same("C17",I,("""        f.strip();
        if (f.size() == 0 || f[0] == ';' || f[0] == '#')
            // It's blank or a comment line
            continue;
""","""        f.strip();
        const bool blank = (f.size() == 0);
        if (blank || f[0] == '#' || f[0] == ';')
            continue;
"""))
# 42
same("C17",I,("""            section = f.copy();
            section.resize(close);
            section.shift();
""","""            const char* text = f.str();
            section = var(close - 1, text + 1);
"""))
# ---- path
# 43
same("C16",P,("""    fs::directory_iterator end;
    for (fs::directory_iterator it(mPath); it != end; it++)
        dir[it->path().string().c_str()] = iVal ? bits(it->path()) : nil;
    return dir;""","""    for (const fs::directory_entry& entry : fs::directory_iterator(mPath))
    {
        const std::string name = entry.path().string();
        dir[name.c_str()] = iVal ? bits(entry.path()) : nil;
    }
    return dir;"""))
# ---- dft
# 44
same("C15",D,("""    var r;
    var s = iVar.shape();
    s[s.size()-1] = mImpl->oSize;
    r = view(s, mImpl->inverse ? mImpl->forwardType : mImpl->inverseType);
    return r;""","""    var s = iVar.shape();
    const int last = s.size() - 1;
    s[last] = mImpl->oSize;
    if (mImpl->inverse)
        return view(s, mImpl->forwardType);
    return view(s, mImpl->inverseType);"""))
# 45
same("C15",D,("""    if (iVar.atype() != (mImpl->inverse
                         ? mImpl->inverseType.atype()
                         : mImpl->forwardType.atype()
        ))
        throw error("DFTBase::scalar: wrong input type");
    if (oVar.atype() != (mImpl->inverse
                          ? mImpl->forwardType.atype()
                          : mImpl->inverseType.atype()
        ))
        throw error("DFTBase::scalar: wrong output type");
""","""    int iType = mImpl->forwardType.atype();
    int oType = mImpl->inverseType.atype();
    if (mImpl->inverse)
        std::swap(iType, oType);
    if (iVar.atype() != iType)
        throw error("DFTBase::scalar: wrong input type");
    if (oVar.atype() != oType)
        throw error("DFTBase::scalar: wrong output type");
"""))
# 46
same("C15",D,("""    if (mImpl->inverse)
        oVar /= mImpl->oSize;""","""    if (!mImpl->inverse)
        return;
    const int n = mImpl->oSize;
    oVar /= n;"""))
# 47
same("C15",D,("""    mImpl->iSize = iInverse && (mImpl->forwardType.atype<float>()
                                || mImpl->forwardType.atype<double>())
        ? iSize / 2 + 1 : iSize;
""","""    const bool real = mImpl->forwardType.atype<float>()
        || mImpl->forwardType.atype<double>();
    if (real && iInverse)
        mImpl->iSize = iSize / 2 + 1;
    else
        mImpl->iSize = iSize;
"""))
# 48
same("C15",D,("""    std::unique_ptr<DFTImpl> impl(new DFTImpl);
    mImpl = impl.get();
""","""    auto impl = std::make_unique<DFTImpl>();
    mImpl = impl.get();
"""))
# 49
same("C15",D,("""    if (iReturn == DFTI_NO_ERROR)
        return;
    throw error(DftiErrorMessage(iReturn));""","""    if (iReturn != DFTI_NO_ERROR)
        throw error(DftiErrorMessage(iReturn));"""))
# 50 vector: template helpers
same("C15",D,("""            switch (mImpl->forwardType.atype())
            {
            case TYPE_FLOAT:
                r = DftiComputeForward(
                    mImpl->handle,
                    iVar.ptr<float>(iOffsetI),
                    oVar.ptr<cfloat>(iOffsetO)
                );
                break;
            case TYPE_DOUBLE:
                r = DftiComputeForward(
                    mImpl->handle,
                    iVar.ptr<double>(iOffsetI),
                    oVar.ptr<cdouble>(iOffsetO)
                );
                break;
            case TYPE_CFLOAT:
                r = DftiComputeForward(
                    mImpl->handle,
                    iVar.ptr<cfloat>(iOffsetI),
                    oVar.ptr<cfloat>(iOffsetO)
                );
                break;
            case TYPE_CDOUBLE:
                r = DftiComputeForward(
                    mImpl->handle,
                    iVar.ptr<cdouble>(iOffsetI),
                    oVar.ptr<cdouble>(iOffsetO)
                );
                break;
            default:
                throw error("DFTBase::vector(): unknown type");
            }
""","""        {
            void* in = 0;
            void* out = 0;
            switch (mImpl->forwardType.atype())
            {
            case TYPE_FLOAT:
                in = iVar.ptr<float>(iOffsetI);
                out = oVar.ptr<cfloat>(iOffsetO);
                break;
            case TYPE_DOUBLE:
                in = iVar.ptr<double>(iOffsetI);
                out = oVar.ptr<cdouble>(iOffsetO);
                break;
            case TYPE_CFLOAT:
                in = iVar.ptr<cfloat>(iOffsetI);
                out = oVar.ptr<cfloat>(iOffsetO);
                break;
            case TYPE_CDOUBLE:
                in = iVar.ptr<cdouble>(iOffsetI);
                out = oVar.ptr<cdouble>(iOffsetO);
                break;
            default:
                throw error("DFTBase::vector(): unknown type");
            }
            r = DftiComputeForward(mImpl->handle, in, out);
        }
"""))
# 51 constructor type
same("C15",D,("""    case TYPE_FLOAT:
        mImpl->inverseType = cfloat(0.0f, 0.0f);
        mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
        r = DftiCreateDescriptor(
            &mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, iSize
        );
        break;
    case TYPE_DOUBLE:
        mImpl->inverseType = cdouble(0.0, 0.0);
        mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
        r = DftiCreateDescriptor(
            &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, iSize
        );
        break;
    case TYPE_CFLOAT:
        mImpl->inverseType = cfloat(0.0f, 0.0f);
        mImpl->oSize = iSize;
        r = DftiCreateDescriptor(
            &mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, iSize
        );
        break;
    case TYPE_CDOUBLE:
        mImpl->inverseType = cdouble(0.0, 0.0);
        mImpl->oSize = iSize;
        r = DftiCreateDescriptor(
            &mImpl->handle, DFTI_DOUBLE, DFTI_COMPLEX, 1, iSize
        );
        break;
    default:
        throw error("DFTBase::DFTBase: Unknown type");
    }
    dftiCheck(r);
""","""    case TYPE_FLOAT:
    case TYPE_CFLOAT:
        mImpl->inverseType = cfloat(0.0f, 0.0f);
        break;
    case TYPE_DOUBLE:
    case TYPE_CDOUBLE:
        mImpl->inverseType = cdouble(0.0, 0.0);
        break;
    default:
        throw error("DFTBase::DFTBase: Unknown type");
    }
    const int type = mImpl->forwardType.atype();
    const bool isReal = (type == TYPE_FLOAT) || (type == TYPE_DOUBLE);
    const bool isSingle = (type == TYPE_FLOAT) || (type == TYPE_CFLOAT);
    mImpl->oSize = (isReal && !iInverse) ? iSize / 2 + 1 : iSize;
    r = DftiCreateDescriptor(
        &mImpl->handle,
        isSingle ? DFTI_SINGLE : DFTI_DOUBLE,
        isReal ? DFTI_REAL : DFTI_COMPLEX,
        1, iSize
    );
    dftiCheck(r);
"""))
