#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.jsonl (one "fixed" entry per repair in /repo) and the
list of repairs for DESIGN.md."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject prefix (after "fix: ") -> property, what failed
WHAT = [
    ("broadcast the scalar operators over complex double", "C03", "a + 1 with a complex double array took the array for a scalar and computed its first element only"),
    ("allocate complex double storage for polynomials", "C06", "poly() of complex double roots allocated real storage and wrote past it"),
    ("swap one row at a time", "C04", "swap of a matrix with a vector swapped from the wrong rows"),
    ("asum of a complex scalar", "C06", "asum of a single complex value was complex"),
    ("array set writes to the output", "C03", "set(a, x) out of place overwrote its operand"),
    ("array addition and subtraction leave", "C03", "a + b changed b when both are arrays and the result is not in place"),
    ("allow arrays of complex values to be copied", "C14", "copy() of an array of complex values threw"),
    ("var::copy() of a reference", "C14", "copy() of x[i] was still a reference into x"),
    ("var::pop() returns the value", "C11", "pop() of an array returned a reference to the place just given up"),
    ("var::remove() on a map", "C12", "remove(i) on a map moved the values but not the keys"),
    ("check the index range", "C08", "at(), insert() and remove() accepted any index and wrote outside the array"),
    ("reject negative sizes", "C08", "resize(-1) and shift() of an empty array made an array of negative size"),
    ("unshift casts the value", "C11", "unshift of an int to a float array stored the bits of the int"),
    ("refuse to append raw data", "C02", "append of raw data of another type than the array reinterpreted it"),
    ("release the elements removed", "C01", "elements cut off by resize() kept their references"),
    ("an array keeps its size when growing", "C09", "a failed growth left the new size over the old storage"),
    ("nil can be compared", "C13", "nil == 1 threw or dereferenced null"),
    ("order arrays lexicographically", "C13", "neither a < b nor b < a nor a == b for arrays of different sizes"),
    ("maps with different keys", "C13", "maps with equal values and different keys were equal"),
    ("compare and dereference the elements of a view", "C13", "equality of views compared their descriptions"),
    ("reject views that start before", "C10", "view(shape, -1) was accepted and read before the array"),
    ("resizing or shifting a view", "C10", "resize() or shift() of a view overwrote its description"),
    ("looking up a key in a scalar", "C12", "x[\"key\"] with x an int dereferenced null"),
    ("broadcasting over an empty array", "C04", "a + b with b an empty array divided by zero"),
    ("cast view dimensions to int", "C10", "view({2.0, 3.0}) read the bits of the doubles as dimensions"),
    ("varbuf returns bytes above 127", "C21", "characters above 127 read from a varstream were negative, 255 the end of the text"),
    ("seeking a varstream", "C21", "seekg() outside the text succeeded and the next read left the array"),
    ("getline() does not store", "C18", "getline() at end of file returned a line with character 255 in it"),
    ("splitting on an empty separator", "C18", "split(\"\") never returned"),
    ("strip writes to the storage", "C18", "strip() wrote through a pointer taken before the output was resized"),
    ("JSON raw values leave the delimiter", "C19", "[1,2] lost the bracket that ends it to the number before it"),
    ("unterminated JSON", "C17", "a truncated JSON object or array was read for ever, or taken for whole"),
    ("JSON numbers must be", "C19", "1x2 in JSON was read as 1"),
    ("JSON strings escape", "C19", "a text holding a quote was written unescaped and read back cut short"),
    ("format the values of complex double arrays", "C19", "a complex double array was written as addresses"),
    ("arithmetic on arrays with different shapes", "C04", "a + b with shapes that do not match read outside b"),
    ("matrix multiplication broadcasts", "C04", "mul of a tensor by a matrix took the wrong strides"),
    ("format the elements of complex double views", "C19", "a view of complex doubles was written as other elements"),
    ("failing to open or write a file", "C17", "writing a file to a directory that does not exist returned normally"),
    ("unreadable and truncated GEDCOM", "C17", "a GEDCOM file that cannot be read was an empty one"),
    ("writing a GEDCOM file throws", "C17", "writing a GEDCOM file did nothing and reported success"),
    ("ini file values can contain", "C17", "key = a=b in an ini file lost the value"),
    ("sound files are read and written in frames", "C17", "stereo files were read half, the rest left uninitialised"),
    ("writing a sound file requires floats", "C02", "a sound of doubles was written as if it held floats"),
    ("a DFT that cannot be set up", "C15", "the descriptor of a DFT leaked when committing it failed"),
    ("DFT of double and complex types", "C15", "a double DFT could not be applied: the types were compared with the array's tag"),
    ("DFT checks the size", "C15", "a DFT read past an array smaller than the transform"),
    ("objects that own a handle", "C16", "a copied owner of a handle closed it twice"),
    ("a library without a factory", "C16", "a library without a factory stayed open"),
    ("an option without an argument", "C17", "an option without an argument given twice threw"),
    ("path tree does not follow", "C16", "tree() on a link to a parent directory never returned"),
    ("initialise the values returned by lapack", "C17", "values returned by lapack were read uninitialised when it failed"),
    ("roots throws when", "C17", "roots() returned values although the eigenvalues were not found"),
    ("negative dimensions of a view", "C08", "v[-1] of a view read before the array"),
    ("binary broadcast, as used by swap", "C04", "swap with shapes that do not match wrote outside an array"),
    ("a scalar keeps its value", "C09", "a scalar that could not become an array lost its value"),
    ("the storage of a view that does not fit", "C01", "the storage of a view that is refused leaked"),
    ("backTrace releases", "C16", "the buffers of backTrace() leaked and odd symbols were read past their end"),
    ("dereferencing the last reference to an array", "C01", "dereferencing the last reference to an array returned a reference into the array it had just released"),
    ("a view that cannot be allocated", "C01", "a view that could not be allocated kept a reference on its array"),
    ("an array can be inserted into itself", "C11", "a.insert(a, 0) moved the elements while reading them"),
    ("casts to and from cdouble", "C02", "a cast to or from a complex double gave another value"),
    ("the cast of an array has the type", "C02", "cast of an array kept the type of the array"),
    ("a new view does not resize", "C10", "making a view resized the value that names its type"),
    ("a single value can be popped", "C11", "pop, shift and remove of a single value dereferenced null"),
    ("presize does not discard", "C11", "presize(n) with n below the size lost elements"),
    ("a failed removal from a view", "C08", "remove() on a view threw after moving the elements"),
    ("presize of an undefined value", "C11", "presize of nil gave an array with an element"),
    ("an element inserted into its own array", "C11", "a.insert(a[i], j) inserted the element that had moved to i"),
    ("a refused unshift of a pair", "C08", "a refused unshift of a pair left the map with another one"),
    ("maps are compared by key and value", "C13", "a map was equal to an array with the same values"),
    ("complex values of the same magnitude", "C13", "1+0i and 0+1i were neither equal nor ordered"),
    ("concatenating arrays with different", "C06", "concatenating a vector to a matrix read past the dimensions"),
    ("reading JSON arrays of mixed types", "C19", "[1, \"a\"] lost values that do not have the type of the first"),
    ("an XML document that is not finished", "C17", "a truncated XML document was taken for whole"),
    ("a file that cannot be read throws", "C17", "reading a directory as a file gave an empty one"),
    ("curl handle released", "C16", "the curl handle leaked when the URL is not a string"),
    ("failure to create an XML parser", "C17", "the null parser was used when it could not be created"),
    ("sound files are closed", "C16", "a sound file stayed open when reading or writing it threw"),
    ("stripping text that is all space", "C18", "strip() of text that is all space read outside it"),
    ("line ends in an XML document", "C20", "the lines of an XML document were joined, so that attributes on two lines ran together"),
    ("atypeStr() of nil", "C07", "atypeStr() of nil dereferenced null"),
    ("range() and irange() do not change", "C22", "range(a[0], b) changed a[0]: the argument is a reference to the element and was counted up itself"),
    ("putting back another character", "C21", "putback('x') after reading 'a' succeeded and 'a' was read again"),
]


def fixes():
    out = subprocess.run(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
    r = []
    for l in out.splitlines():
        h, s = l.split(" ", 1)
        if not s.startswith("fix: "):
            continue
        m = [w for w in WHAT if s[5:].startswith(w[0])]
        if len(m) != 1:
            sys.exit("no entry for: " + s)
        r.append((h, s[5:]) + m[0][1:])
    return r


def main():
    with open(V + "/KNOWN_FINDINGS.jsonl", "w") as f:
        for h, s, p, w in fixes():
            f.write(json.dumps({"status": "fixed", "id": "fixed-" + h, "property": p, "commit": h, "keys": [], "what": w,
                                "note": "fixed: property=%s %s %s" % (p, h, w)}) + "\n")


main() if __name__ == "__main__" else None
