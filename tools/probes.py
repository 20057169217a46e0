"""Known findings which need a schema of their own: each function returns True while the defect is there."""
import os


def run(b, name, schema, module, program):
    """compiles the schema and a program which uses it; the program's exit code"""
    import check

    def make(out):
        d = os.path.dirname(out)
        open(d + "/known.asn", "w").write(schema)
        open(d + "/main.cpp", "w").write('#include "gen_known.hpp"\n#include <cstdio>\n#include <vector>\n' + program)
        r = check.sh([b.compiler(), d + "/known.asn", d + "/gen_known"], cwd=d, timeout=120)
        if r.returncode:
            raise check.Broken("the schema of the known finding %s is rejected" % name)
        r = check.sh(["g++", "-std=c++14", "-O0", "-w", "-I" + check.REPO + "/include", "-I" + d, d + "/main.cpp",
                      check.REPO + "/src/util/BerView.cpp", check.REPO + "/src/ber_types/Real.cpp", "-o", out] + check.ABSL)
        if r.returncode:
            raise check.Broken("the program of the known finding %s does not compile: %s" % (name, r.stderr.decode(errors="replace")[:2000]))
    p = check.cached("probe", check.key("probe", name, b.ctree, schema, program), make)
    return check.sh([p], timeout=60).returncode


def three_tags(b):
    rc = run(b, "three_tags", "Known DEFINITIONS EXPLICIT TAGS ::= BEGIN\nThree ::= [1] EXPLICIT [2] EXPLICIT [3] EXPLICIT INTEGER\nEND\n", "Known", """
int main()
{
    fast_ber::Known::Three    t(5);
    std::vector<uint8_t>      b(fast_ber::encoded_length(t));
    if (!fast_ber::encode(absl::MakeSpan(b), t).success) return 2;
    const std::vector<uint8_t> want{0xa1, 7, 0xa2, 5, 0xa3, 3, 2, 1, 5};
    return b == want ? 0 : 1;
}
""")
    return rc == 1


def extensible_numbers(b):
    rc = run(b, "extensible_numbers", "Known DEFINITIONS ::= BEGIN\nE ::= ENUMERATED { a(5), b, ... }\nEND\n", "Known", """
int main() { return static_cast<int>(fast_ber::Known::EValues::b) == 0 ? 0 : 1; }
""")
    return rc == 1
