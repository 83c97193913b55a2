"""The programs users start from: the examples of the reference pages (their
static assertions must hold) and the example programs (their output is known).
They live in /verif/workload, copied from the repository."""
import os

from .harness import CONFIGS, VERIF

DOC = os.path.join(VERIF, "workload", "doc")
PROGS = os.path.join(VERIF, "workload", "programs")

OWNER = {
    "C02": "alphanum digit in_range in_range_c is_digit is_lcase_letter "
           "is_letter is_ucase_letter is_whitespace is_whitespace_c letter "
           "lit lit_c one_char one_char_except one_char_except_c one_of_c "
           "range range_c space",
    "C03": "empty entire_input first_of iterate iterate_c keyword last_of "
           "middle_of nth_of nth_of_c sequence sequence_apply spaces token",
    "C04": "except if_ look_ahead one_of optional repeated_one_of "
           "repeated_one_of1",
    "C05": "foldl foldl1 foldl_start_with_parser foldr foldr1 "
           "foldr_start_with_parser repeated repeated1",
    "C06": "fail_at_first_char_expected foldl_reject_incomplete "
           "foldl_reject_incomplete1 "
           "foldl_reject_incomplete_start_with_parser "
           "foldr_reject_incomplete foldr_reject_incomplete1",
    "C07": "accept_when always always_c change_error_message fail return_ "
           "transform transform_error transform_error_message",
    "C08": "digit_to_int digit_to_int_c digit_val int_ int_to_digit "
           "int_to_digit_c",
    "C09": "get_col get_line get_prev_char next_char next_line",
    "C11": "BOOST_METAPARSE_STRING BOOST_METAPARSE_STRING_VALUE string",
    "C12": "grammar",
    "C13": "build_parser debug_parsing_error",
    "C14": "BOOST_METAPARSE_DEFINE_ERROR get_message",
    "C16": "get_col get_line get_message get_position get_prev_char "
           "get_remaining get_result is_error next_char next_line "
           "unless_error in_range is_digit is_letter digit_to_int "
           "int_to_digit",
}


def documented(h):
    """the examples of the reference pages that belong to a property"""
    cfgs = ["g11", "c17"] if h.tier != "thorough" else \
        ["g11", "g14", "g17", "g20", "c11", "c14", "c17"]
    jobs = [(n, CONFIGS[c]) for n in OWNER.get(h.prop, "").split()
            for c in cfgs]

    def one(job):
        n, cfg = job
        st, err = h.compile_retry(cfg, os.path.join(DOC, n + ".cpp"),
                                  "/dev/null", link=False,
                                  extra=["-fsyntax-only"])
        return job, st, err
    for (n, cfg), st, err in h.map(one, jobs):
        h.eval(("doc", n, cfg.name))
        h.count("documented examples")
        if st != "ok":
            h.violation("the example of the reference page of %s does not "
                        "hold" % n, cfg,
                        open(os.path.join(DOC, n + ".cpp")).read(),
                        "compiles", err[:800])


def programs(h, names=None, cfgs=None):
    """the example programs, run under the sanitizers"""
    jobs = []
    for d in sorted(os.listdir(PROGS)):
        for f in sorted(os.listdir(os.path.join(PROGS, d))):
            if f.endswith(".cpp") and (names is None or d in names):
                for c in cfgs or (
                        ["g98", "c98", "g11", "g17", "c17"]
                        if h.tier != "thorough" else
                        ["g98", "g11", "g14", "g17", "g20", "c98", "c11",
                         "c14", "c17"]):
                    jobs.append((d, f, CONFIGS[c]))

    def one(job):
        d, f, cfg = job
        src = os.path.join(PROGS, d, f)
        exe = os.path.join(h.dir, "prog_%s_%s_%s" % (d, f[:-4], cfg.name))
        st, err = h.compile_retry(cfg, src, exe,
                                  extra=["-I" + os.path.dirname(src)])
        if st != "ok":
            return job, "does not compile", err
        rc, out, err = h.execute(exe)
        os.unlink(exe)
        want = open(src[:-4] + ".%s.out" % cfg.fam, "rb").read()
        if rc != "ok":
            return job, "fails", err
        if out != want:
            return job, "prints something else", "%r instead of %r" % (out,
                                                                       want)
        return job, None, None
    for (d, f, cfg), bad, err in h.map(one, jobs):
        h.eval(("prog", d, f, cfg.name))
        h.count("example programs run")
        if bad:
            h.violation("the example program %s/%s %s" % (d, f, bad), cfg,
                        open(os.path.join(PROGS, d, f)).read(),
                        "the output it has always had", err[:800])


def run(h):
    documented(h)
    two = ["g98", "g11", "c17"]
    if h.prop == "C12":
        programs(h, ["grammar_calculator"], two)
    elif h.prop == "C13":
        programs(h, ["parsing_error"], two)
    elif h.prop == "C15":
        programs(h)
    elif h.prop == "C17":
        programs(h, ["calculator_with_parens", "meta_hs", "meta_lambda",
                     "calculator_with_parens_and_unary_ops", "regexp"], two)
