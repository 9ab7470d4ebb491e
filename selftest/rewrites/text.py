V=[]
S="lube/string.cpp"; J="lube/json.cpp"
def same(pid,F,*edits):
    V.append((pid,F,[(F,)+tuple(e) if len(e)==3 else (F,e[0],e[1],0) for e in edits],None,None,"same"))
# 0
same("C05",S,("""    var r;
    r = iVar.copy(true);
    return r;""","""    return iVar.copy(true);"""))
# 1
same("C05",S,("""    var v = alloc(iVar);
    if (iVar.atype<char>())
        string(iVar, v);
    else
        broadcast(iVar, v);
    return v;""","""    var v = alloc(iVar);
    operator()(iVar, v);
    return v;"""))
# 2
same("C05",S,("""    if (iVar.atype<char>())
        string(iVar, oVar);
    else
        broadcast(iVar, oVar);
    return oVar;""","""    const bool isString = iVar.atype<char>();
    if (!isString)
    {
        broadcast(iVar, oVar);
        return oVar;
    }
    string(iVar, oVar);
    return oVar;"""))
# 3
same("C05",S,("""    for (int i=0; i<iVar.size(); i++)
    {
        var ref = oVar.at(i);
        operator()(iVar.at(i), ref);
    }""","""    const int n = iVar.size();
    int i = 0;
    while (i < n)
    {
        var in = iVar.at(i);
        var ref = oVar.at(i);
        operator()(in, ref);
        ++i;
    }"""))
# 4 split(char)
same("C20",S,("""    if (iMax != 1)
        while ( (p = std::strstr(source, iStr)) )
        {
            int len = p-source;
            var s(len, source);
            r.push(s);
            source = p+strLen;

            if (iMax && (r.size() >= iMax-1))
                break;
        }
    r.push(source);
""","""    if (iMax == 1)
    {
        r.push(source);
        return r;
    }
    for (p = std::strstr(source, iStr); p; p = std::strstr(source, iStr))
    {
        r.push(var((int)(p-source), source));
        source = p+strLen;
        if ((iMax != 0) && (r.size() + 1 >= iMax))
            break;
    }
    r.push(source);
"""))
# 5 split space
same("C20",S,("""    while (std::isspace(*p)) { ++p; }
    while (*p)
    {
        const char* beg = p;
        while (*p && !std::isspace(*p)) { ++p; }
        const char* end = p;
        int len = end - beg;
        if (len > 0)
        {
            var s(len, beg);
            r.push(s);
        }
        while (std::isspace(*p)) { ++p; }
""","""    for (; std::isspace(*p); ++p) ;
    while (*p != '\\0')
    {
        const char* const beg = p;
        for (; *p && !std::isspace(*p); ++p) ;
        const int len = p - beg;
        if (len != 0)
            r.push(var(len, beg));
        for (; std::isspace(*p); p++) ;
"""))
# 6 join
same("C20",S,("""    for (int i=0; i<size(); i++)
    {
        if (i == 0)
            r.insert(at(0));
        else
        {
            r.insert(s, r.size());
            r.insert(at(i), r.size());
        }
    }
""","""    if (size() > 0)
        r.insert(at(0));
    for (int i=1; i<size(); i++)
    {
        r.insert(s, r.size());
        r.insert(at(i), r.size());
    }
"""))
# 7 join
same("C20",S,("""        if (i == 0)
            r.insert(at(0));
        else
        {
            r.insert(s, r.size());
            r.insert(at(i), r.size());
        }
""","""        if (i > 0)
            r.insert(s, r.size());
        r.insert(at(i), r.size());
"""))
# 8 strip
same("C20",S,("""    int leading = 0;
    while ((leading < is) && (isspace(ip[leading])))
        leading++;
    int trailing = 0;
    while ((trailing < is - leading) && (isspace(ip[is-trailing-1])))
        trailing++;

    int newSize = is - leading - trailing;
""","""    int leading = 0;
    for (; leading < is; ++leading)
        if (!isspace(ip[leading]))
            break;
    int last = is;
    while ((last > leading) && isspace(ip[last-1]))
        --last;

    const int newSize = last - leading;
"""))
# 9 strip 
same("C20",S,("""    if (iVar.is(oVar))
    {
        if (leading > 0)
            std::memmove(op, op+leading, newSize);
        if (newSize != oVar.size())
            oVar.resize(newSize);
    }
    else
    {
        oVar = "";
        oVar.resize(newSize);
        op = oVar.ptr<char>();
        for (int i=0; i<newSize; i++)
            op[i] = ip[i+leading];
    }
""","""    if (!iVar.is(oVar))
    {
        oVar = "";
        oVar.resize(newSize);
        op = oVar.ptr<char>();
        std::memcpy(op, ip+leading, newSize);
        return;
    }
    if (leading)
        std::memmove(op, op+leading, newSize);
    oVar.resize(newSize);
"""))
# 10 search
same("C20",S,("""    bool r = boost::regex_search(const_cast<var&>(iVar).str(), matches, re);
    oVar = nil;
    if (r)
        for (int i=0; i<(int)matches.size(); i++)
            oVar[i] = matches.str(i).c_str();
""","""    const char* text = const_cast<var&>(iVar).str();
    if (!boost::regex_search(text, matches, re))
    {
        oVar = nil;
        return;
    }
    var groups;
    for (size_t i=0; i<matches.size(); i++)
    {
        const std::string m = matches.str(i);
        groups[(int)i] = m.c_str();
    }
    oVar = groups;
"""))
# 11 match
same("C20",S,("""    Match m = Match(iRE);
    return m(*this);""","""    const Match m(iRE);
    var result = m(*this);
    return result;"""))
# 12 replace
same("C20",S,("""    std::string s = const_cast<var&>(iVar).str();
    var str(mStr); // const thing
    var r = boost::regex_replace(s, re, str.str()).c_str();
    oVar = r;
""","""    const std::string s(const_cast<var&>(iVar).str());
    var with = mStr;
    const std::string result = boost::regex_replace(s, re, with.str());
    oVar = result.c_str();
"""))
# 13 toupper
same("C20",S,("""    char* ip = const_cast<var&>(iVar).ptr<char>();
    char* op = oVar.ptr<char>();
    for (int i=0; i<iVar.size(); i++)
        // Does not work for UTF-8 'é' and the like
        op[i] = std::toupper(ip[i]);
}""","""    const char* ip = const_cast<var&>(iVar).ptr<char>();
    char* op = oVar.ptr<char>();
    const char* const end = ip + iVar.size();
    while (ip != end)
        *op++ = std::toupper(*ip++);
}"""))
# 14 a shared helper
same("C20",S,("""void ToUpper::string(const var& iVar, var& oVar) const
{
    if (!iVar.is(oVar))
    {
        oVar = "";
        oVar.resize(iVar.size());
    }
""","""/** Makes the output a string of the same length as the input */
static void sameLength(const var& iVar, var& oVar)
{
    if (iVar.is(oVar))
        return;
    oVar = "";
    oVar.resize(iVar.size());
}

void ToUpper::string(const var& iVar, var& oVar) const
{
    sameLength(iVar, oVar);
"""),("""void ToLower::string(const var& iVar, var& oVar) const
{
    if (!iVar.is(oVar))
    {
        oVar = "";
        oVar.resize(iVar.size());
    }
""","""void ToLower::string(const var& iVar, var& oVar) const
{
    sameLength(iVar, oVar);
"""))
# 15 getline
same("C20",S,("""    int read = 0;
    int size = 63; // var adds the \\0 automatically
    resize(size);
    char* str = ptr<char>();
    while (!iStream.eof())
    {
        int c = iStream.get();
        if (c == std::istream::traits_type::eof())
            break;
        if (c == '\\n') // Unix specific?  ...no, I think c++ will change it to
                       // whatever is appropriate
            break;
        str[read++] = c;
        if (read == size)
        {
            size = ((size+1)*2-1);
            resize(size);
            str = ptr<char>();
        }
    }
    resize(read);
    return *this;
""","""    int read = 0;
    int size = 63; // var adds the \\0 automatically
    resize(size);
    char* str = ptr<char>();
    int c;
    while ((c = iStream.get()) != std::istream::traits_type::eof())
    {
        if (c == '\\n')
            break;
        if (read == size)
        {
            size = size*2+1;
            resize(size);
            str = ptr<char>();
        }
        str[read] = c;
        read += 1;
    }
    return resize(read);
"""))
# 16 getline into std::string
same("C20",S,("""    int read = 0;
    int size = 63; // var adds the \\0 automatically
    resize(size);
    char* str = ptr<char>();
    while (!iStream.eof())
    {
        int c = iStream.get();
        if (c == std::istream::traits_type::eof())
            break;
        if (c == '\\n') // Unix specific?  ...no, I think c++ will change it to
                       // whatever is appropriate
            break;
        str[read++] = c;
        if (read == size)
        {
            size = ((size+1)*2-1);
            resize(size);
            str = ptr<char>();
        }
    }
    resize(read);
    return *this;
""","""    std::string line;
    std::getline(iStream, line);
    const int n = line.size();
    resize(n);
    char* str = ptr<char>();
    for (int i=0; i<n; i++)
        str[i] = line[i];
    return *this;
"""))
# 17 getline peek
same("C20",S,("""    iStream.peek();
    if (!iStream.good())
        return clear();
""","""    if (iStream.peek() == std::istream::traits_type::eof() || !iStream.good())
    {
        clear();
        return *this;
    }
"""))
# 18 regex ctor/dtor
same("C16",S,("""    mRE = new boost::regex(iRE.str());
""","""    const char* pattern = iRE.str();
    boost::regex* re = new boost::regex(pattern);
    mRE = re;
"""),("""    delete reinterpret_cast<boost::regex*>(mRE);
""","""    boost::regex* const re = reinterpret_cast<boost::regex*>(mRE);
    delete re;
"""))
# 19 Replace ctor init
same("C16",S,("""    : RegExFunctor(iRE)
{
    mStr = iStr;
}""","""    : RegExFunctor(iRE), mStr(iStr)
{
}"""))
# ---- json
# 20 peek
same("C13",J,("""    char c = iStream.peek();
    while (isspace(c))
    {
        iStream.get();
        c = iStream.peek();
    }
    return c;""","""    for (;;)
    {
        const char c = iStream.peek();
        if (!isspace(c))
            return c;
        iStream.get();
    }"""))
# 21 peek with ws-like helper
same("C13",J,("""    char c = iStream.peek();
    while (isspace(c))
    {
        iStream.get();
        c = iStream.peek();
    }
    return c;""","""    char c;
    do
        c = iStream.peek();
    while (isspace(c) && iStream.ignore());
    return c;"""))
# 22 doValue
same("C13",J,("""    var val;
    switch (peek(iStream))
    {
    case '{':
        val = doObject(iStream);
        break;
    case '[':
        val = doArray(iStream);
        break;
    case '"':
        val = doString(iStream);
        break;
    default:
        val = doRaw(iStream);
    }
    return val;""","""    const char c = peek(iStream);
    if (c == '{')
        return doObject(iStream);
    if (c == '[')
        return doArray(iStream);
    return (c == '"') ? doString(iStream) : doRaw(iStream);"""))
# 23 doObject if chain
same("C13",J,("""        switch (peek(iStream))
        {
        case '}':
            iStream.get();
            return obj;
            break;
        case '"':
            key = doString(iStream);
            break;
        case ':':
            iStream.get();
            obj[key] = doValue(iStream);
            break;
        case ',':
            iStream.get();
            key = nil;
            break;
        default:
            throw error("Unknown character");
        }
""","""        const char next = peek(iStream);
        if (next == '"')
        {
            key = doString(iStream);
            continue;
        }
        if (next != '}' && next != ':' && next != ',')
            throw error("Unknown character");
        iStream.get();
        if (next == '}')
            return obj;
        if (next == ':')
            obj[key] = doValue(iStream);
        else
            key.clear();
"""))
# 24 expect helper
same("C13",J,("""    char got = iStream.get();
    if (got != '{')
        throw error("JSON object doesn't start with {");
""","""    expect(iStream, '{', "JSON object doesn't start with {");
"""),("""    char got = iStream.get();
    if (got != '[')
        throw error("JSON array doesn't start with [");
""","""    expect(iStream, '[', "JSON array doesn't start with [");
"""),("""var JSON::doObject(std::istream& iStream)
""","""static void expect(std::istream& iStream, char iChar, const char* iError)
{
    char got = iStream.get();
    if (got != iChar)
        throw error(iError);
}

var JSON::doObject(std::istream& iStream)
"""))
# 25 doObject value first
same("C13",J,("""            obj[key] = doValue(iStream);
""","""            {
                var value = doValue(iStream);
                obj[key] = value;
            }
"""))
# 26 doArray
same("C13",J,("""        switch (peek(iStream))
        {
        case ']':
            iStream.get();
            return arr;
            break;
        case ',':
            iStream.get();
            break;
        default:
            val = doValue(iStream);
            if (arr && (arr.atype() != TYPE_VAR)
                && (val.type() != arr.atype()))
                // A typed array would cast the value
                arr = untyped(arr);
            arr.push(val);
        }
""","""        const char c = peek(iStream);
        if (c == ']' || c == ',')
        {
            iStream.get();
            if (c == ']')
                return arr;
            continue;
        }
        val = doValue(iStream);
        const bool typed = arr && (arr.atype() != TYPE_VAR);
        if (typed && (arr.atype() != val.type()))
            arr = untyped(arr);
        arr.push(val);
"""))
# 27 doString
same("C13",J,("""    while (iStream.get(got))
        switch (got)
        {
        case '\\"':
            return str;
        case '\\\\':
            // Escape character
            got = iStream.get();
            switch (got)
            {
            case '\\"':
            case '\\\\':
                str.push(got);
                break;
            default:
                throw error("Unrecognised JSON string escape");
            }
            break;
        default:
            str.push(got);
        }
    throw error("Unterminated JSON string");
    return nil;""","""    while (iStream.get(got))
    {
        if (got == '\\"')
            return str;
        if (got == '\\\\')
        {
            got = iStream.get();
            if ((got != '\\"') && (got != '\\\\'))
                throw error("Unrecognised JSON string escape");
        }
        str.push(got);
    }
    throw error("Unterminated JSON string");"""))
# 28 doString flag
same("C13",J,("""    while (iStream.get(got))
        switch (got)
        {
        case '\\"':
            return str;
        case '\\\\':
            // Escape character
            got = iStream.get();
            switch (got)
            {
            case '\\"':
            case '\\\\':
                str.push(got);
                break;
            default:
                throw error("Unrecognised JSON string escape");
            }
            break;
        default:
            str.push(got);
        }
""","""    bool escaped = false;
    while (iStream.get(got))
    {
        if (escaped)
        {
            if (got != '\\"' && got != '\\\\')
                throw error("Unrecognised JSON string escape");
            str.push(got);
            escaped = false;
        }
        else if (got == '\\\\')
            escaped = true;
        else if (got == '\\"')
            return str;
        else
            str.push(got);
    }
"""))
# 29 toNumber
same("C13",J,("""    varstream vs(iStr);
    long l;
    vs >> l;
    if (!vs.fail() && vs.eof())
        return l;

    // Try for double
    vs.clear();
    vs.seekg(0);
    double d;
    vs >> d;
    if (!vs.fail() && vs.eof())
        return d;
""","""    {
        varstream vs(iStr);
        long l;
        if ((vs >> l) && vs.eof())
            return l;
    }

    // Try for double
    varstream ds(iStr);
    double d;
    if ((ds >> d) && ds.eof())
        return d;
"""))
# 30 doRaw
same("C13",J,("""    int c;
    while ((c = iStream.peek()) != char_traits<char>::eof())
    {
        if (isspace(c))
            break;
        if (strchr(",[]{}", c))
            break;
        val.push((char)iStream.get());
    }
""","""    for (int c = iStream.peek();
         (c != char_traits<char>::eof()) && !isspace(c) && !strchr(",[]{}", c);
         c = iStream.peek())
        val.push((char)iStream.get());
"""))
# 31 isDelimiter helper
same("C13",J,("""        if (strchr(",[]{}", c))
            break;
""","""        if (isDelimiter(c))
            break;
"""),("""var JSON::doRaw(std::istream& iStream)
""","""static bool isDelimiter(int iChar)
{
    switch (iChar)
    {
    case 0:
    case ',':
    case '[':
    case ']':
    case '{':
    case '}':
        return true;
    }
    return false;
}

var JSON::doRaw(std::istream& iStream)
"""))
# 32 doRaw meanings
same("C13",J,("""    if (val == "true")
        return 1;
    else if (val == "false")
        return 0;
    else if (val == "null")
        return nil;
""","""    if (val == "null")
        return nil;
    const bool yes = (val == "true");
    if (yes || (val == "false"))
        return yes ? 1 : 0;
"""))
# 33 op
same("C13",J,("""    var val = doValue(iStream);
    return val;
}""","""    return doValue(iStream);
}"""),("""    JSON json;
    var in = json(iStream);
    ioVar = in;
    return iStream;""","""    JSON parser;
    ioVar = parser(iStream);
    return iStream;"""))
# 34 format heap first
same("C13",J,("""        if (iVar.heap())
            iVar.view()
                ? formatView(iStream, iVar, iIndent)
                : formatArray(iStream, iVar, iIndent);
        else
            iStream << "null";
        break;""","""        if (!iVar.heap())
            iStream << "null";
        else if (iVar.view())
            formatView(iStream, iVar, iIndent);
        else
            formatArray(iStream, iVar, iIndent);
        break;"""))
# 35 format char
same("C13",J,("""        iStream << "\\'";
        iStream << iVar.get<char>();
        iStream << "\\'";
        break;""","""        iStream << '\\'' << iVar.get<char>() << '\\'';
        break;"""))
# 36 string
same("C13",J,("""            char c = *iVar.ptr<char>(i);
            if ((c == '\\"') || (c == '\\\\'))
                iStream << '\\\\';
            iStream << c;
""","""            const char c = *iVar.ptr<char>(i);
            switch (c)
            {
            case '\\"':
            case '\\\\':
                iStream << '\\\\' << c;
                break;
            default:
                iStream << c;
            }
"""))
# 37 string pointer
same("C13",J,("""        for (int i=0; i<iVar.size(); i++)
        {
            char c = *iVar.ptr<char>(i);
            if ((c == '\\"') || (c == '\\\\'))
                iStream << '\\\\';
            iStream << c;
        }
        iStream << "\\"";
        break;""","""        {
            const char* s = iVar.ptr<char>();
            const int n = iVar.size();
            for (int i=0; i<n; i++)
            {
                if (s[i] == '\\"' || s[i] == '\\\\')
                    iStream << '\\\\';
                iStream << s[i];
            }
        }
        iStream << '"';
        break;"""))
# 38 indent helper
same("C13",J,("""            iStream << "\\n";
            for (int j=0; j<iIndent+2; j++)
                iStream << " ";
            iStream << iVar.key(i) << ": ";
            format(iStream, iVar[i], iIndent+2);
            if (i < iVar.size()-1)
                iStream << ",";
        }
        if (iVar.size())
        {
            iStream << "\\n";
            for (int j=0; j<iIndent; j++)
                iStream << " ";
        }
""","""            newline(iStream, iIndent+2);
            iStream << iVar.key(i) << ": ";
            format(iStream, iVar[i], iIndent+2);
            if (i < iVar.size()-1)
                iStream << ",";
        }
        if (iVar.size())
            newline(iStream, iIndent);
"""),("""void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
{""","""static void newline(std::ostream& iStream, int iIndent)
{
    iStream << "\\n";
    for (int j=0; j<iIndent; j++)
        iStream << " ";
}

void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
{"""))
# 39 comma before
same("C13",J,("""            iStream << "\\n";
            for (int j=0; j<iIndent+2; j++)
                iStream << " ";
            iStream << iVar.key(i) << ": ";
            format(iStream, iVar[i], iIndent+2);
            if (i < iVar.size()-1)
                iStream << ",";
        }
""","""            if (i > 0)
                iStream << ",";
            iStream << "\\n" << std::string(iIndent+2, ' ');
            format(iStream, iVar.key(i), iIndent+2);
            iStream << ": ";
            format(iStream, iVar[i], iIndent+2);
        }
"""))
# 40 var array comma
same("C13",J,("""        iStream << "[\\n";
        for (int i=0; i<iVar.size(); i++)
        {
            for (int j=0; j<iIndent+2; j++)
                iStream << " ";
            format(iStream, iVar[i], iIndent+2);
            if (i < iVar.size()-1)
                iStream << ",";
            iStream << "\\n";
        }
""","""        iStream << "[\\n";
        for (int i=0, n=iVar.size(); i<n; i++)
        {
            for (int j=0; j<iIndent+2; j++)
                iStream << ' ';
            format(iStream, iVar[i], iIndent+2);
            iStream << ((i+1 < n) ? ",\\n" : "\\n");
        }
"""))
# 41 default
same("C13",J,("""        iStream << "[";
        for (int i=0; i<iVar.size(); i++)
        {
            if (i != 0)
                iStream << ", ";
            iStream << iVar.at(i);
        }
        iStream << "]";
    }
}""","""        {
            const char* separator = "[";
            for (int i=0; i<iVar.size(); i++)
            {
                iStream << separator << iVar.at(i);
                separator = ", ";
            }
            if (iVar.size() == 0)
                iStream << "[";
            iStream << "]";
        }
    }
}"""))
# 42 view 1D
same("C13",J,("""        iStream << "[";
        for (int i=0; i<iVar.size(); i++)
        {
            iStream << iVar[i];
            if (i != iVar.size()-1 )
                iStream << ", ";
        }
        iStream << "]";
        return;""","""        iStream << "[";
        for (int i=0; i<iVar.size(); i++)
        {
            if (i)
                iStream << ", ";
            iStream << iVar[i];
        }
        iStream << "]";
        return;"""))
# 43 view mats
same("C13",J,("""                iStream << iVar[k*nRows*nCols + j*nCols + i];
""","""                const int index = (k*nRows + j)*nCols + i;
                iStream << iVar[index];
"""))
# 44 untyped
same("C13",J,("""    for (int i=0; i<iVar.size(); i++)
    {
        r.push(nil);
        r[i] = iVar.at(i);
    }
    return r;""","""    const int n = iVar.size();
    for (int i=0; i<n; i++)
        r.push(nil);
    for (int i=0; i<n; i++)
        r[i] = iVar.at(i);
    return r;"""))
