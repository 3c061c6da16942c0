"""The units (verification tasks) per property."""
from .core import Unit, lc
PROPS = {}


def prop(pid, units, level="proof", assumptions=(), explanation=None):
    PROPS[pid] = dict(level=level, units=units, assumptions=list(assumptions))
    if explanation:
        PROPS[pid]["explanation"] = explanation


B = "libdieharder/bits.c"
SG = "libdieharder/static_get_bits.c"


def bp(name, entry, fn, files=(B,), rm=32, nt=32, **kw):
    kw.setdefault("unwind", 35)
    return Unit(name, "bits_prim.c", entry, fn, list(files), defines=["RM=%d" % rm, "NTMAX=%d" % nt], **kw)


prop("P03", [
    bp("b_umask", "h_umask", "b_umask", enforce="b_umask"),
    bp("b_window", "h_window", "b_window", enforce="b_window", replace=["b_umask"]),
    bp("b_rotate_left", "h_rotl", "b_rotate_left", enforce="b_rotate_left", replace=["b_window"]),
    bp("b_rotate_right", "h_rotr", "b_rotate_right", enforce="b_rotate_right", replace=["b_window"]),
    bp("ntuple_cyclic", "h_ntuple_cyclic", "get_ntuple_cyclic", replace=["b_window"], unwind=8, object_bits=12),
    bp("get_bit", "h_get_bit", "get_bit", kind="bounded", bound="strings of at most 8 words, every word width 1..32"),
    bp("get_int_bit", "h_get_int_bit", "get_int_bit"),
    bp("cycle", "h_cycle", "cycle"),
    bp("bit2uint", "h_bit2uint", "bit2uint"),
    bp("ntuple_from_whole_uint", "h_ntuple_whole", "get_bit_ntuple_from_whole_uint", [SG]),
] + [bp("get_bit_ntuple_rm%d" % m, "h_bit_ntuple", "get_bit_ntuple", rm=m, kind="bounded",
        bound="word width %d, strings of at most 4 words" % m,
        tier="quick" if m in (1, 8, 24, 31, 32) else "thorough") for m in range(1, 33)]
  + [bp("ntuple_from_uint_rm%d" % m, "h_ntuple_uint", "get_bit_ntuple_from_uint", [SG], rm=m,
        tier="quick" if m in (1, 7, 16, 24, 31, 32) else "thorough") for m in range(1, 33)])


def bs(name, entry, fn, files, rm, nout, ncall=3, hoist=False, step=False, sz=None, **kw):
    kw.setdefault("unwind", max(nout, 33) + 2)
    d = ["RM=%d" % rm, "NOUT=%d" % nout, "NCALL=%d" % ncall] + (["HOISTED"] if hoist else []) + (["STEP"] if step else []) + (["SZ=%d" % sz] if sz else [])
    return Unit(name, "bits_stream.c", entry, fn, files, defines=d, hoist=[SG] if hoist else [], **kw)


def grbu_hist(m, nc, name=None, tier="quick"):
    return bs(name or "grbu_history_rm%d" % m, "h_grbu_history", "get_rand_bits_uint", [SG], m, nc * ((32 + m - 1) // m) + 1, nc,
              kind="bounded", bound="%d consecutive requests of arbitrary widths, output width %d" % (nc, m), tier=tier)


Q = (1, 7, 8, 16, 24, 31, 32)
prop("P01",
     [bs("grbu_step_rm%d" % m, "h_grbu_step", "get_rand_bits_uint", [SG], m, (32 + m - 1) // m + 1, hoist=True, shape=True,
         fallback=[grbu_hist(m, 3, "grbu_fb_rm%d" % m)], tier="quick") for m in range(1, 33)] +
     [grbu_hist(m, 3, tier="quick" if m in (8, 24, 31, 32) else "thorough") for m in range(1, 33)])


def gur_hist(m, nc, name=None, tier="quick"):
    return bs(name or "gur_history_rm%d" % m, "h_gur_history", "get_uint_rand", [B], m, (nc * 32 + m - 1) // m + 1, nc,
              kind="bounded", bound="%d consecutive words, output width %d" % (nc, m), tier=tier)


def grb_hist(m, w, nc, name=None, tier="quick"):
    u = bs(name or "grb_history_rm%d_w%d" % (m, w), "h_grb_history", "get_rand_bits", [B], m, ((nc + 7) * 32 + m - 1) // m + 2, nc,
           kind="bounded", bound="%d consecutive requests of %d bits, output width %d" % (nc, w, m), tier=tier,
           unwindset=["get_ntuple_cyclic.0:8"])
    u.defines.append("GW=%d" % w)
    return u


prop("P02",
     [bs("gur_step_rm%d" % m, "h_gur_step", "get_uint_rand", [B], m, (32 + m - 1) // m + 2, step=True, shape=True,
         fallback=[gur_hist(m, 4, "gur_fb_rm%d" % m)]) for m in range(1, 33)] +
     [gur_hist(m, 4, tier="quick" if m in (8, 24, 31, 32) else "thorough") for m in range(1, 33)] +
     [bs("grb_step", "h_grb_step", "get_rand_bits", [B], 32, 8, step=True, shape=True, replace=["get_ntuple_cyclic", "b_window"], object_bits=12,
         unwind=9, fallback=[grb_hist(32, 24, 10, "grb_fb")])] +
     [grb_hist(m, w, 10, tier="quick" if m in (24, 31, 32) else "thorough") for m in (8, 16, 24, 31, 32) for w in (5, 8, 24, 32)] +
     [bs("fill_uint_buffer_rm%d" % m, "h_fill_buffer", "fill_uint_buffer", [B], m, 8, kind="bounded",
         bound="buffers of at most 4 words, output width %d" % m, tier="quick" if m in (1, 24, 31, 32) else "thorough") for m in range(1, 33)])
PROPS["P02"]["units"] += [
    bs("reset_rm%d" % m, "h_reset", "reset_bit_buffers", [B], m, 60, 4, kind="bounded", unwindset=["get_ntuple_cyclic.0:8"],
       bound="up to 3 requests before and 4 after the reset, output width %d" % m) for m in (24, 31, 32)] + [
    bs("grb_limits_%d" % z, "h_grb_limits", "get_rand_bits", [B], 32, 8, what="result size %d bytes" % z,
       replace=["get_ntuple_cyclic", "b_window"], object_bits=12, sz=z) for z in (1, 4, 16)]

OUT = "dieharder/output.c"


def ou(name, entry, fn, base=0, strat=0, lo=0, hi=512, nk=1, **kw):
    kw.setdefault("unwind", 84)
    kw.setdefault("unwindset", ["h_row.1:520", "h_row.0:3", "h_header.0:520", "h_rnginfo.0:70"])
    d = ["BASE=%d" % base, "STRAT=%d" % strat, "LO=%d" % lo, "HI=%d" % hi, "NKP=%d" % nk] + list(kw.pop("defines", []))
    return Unit(name, "out.c", entry, fn, [OUT], defines=d, **kw)


prop("P15", [ou("verdict", "h_verdict", "output_table_line"), ou("verdict_tight", "h_verdict", "output_table_line", defines=["TIGHT"])])
def chunks(nm, entry, fn, full, some, step=16, **kw):
    r = []
    for (b, st) in ((0, 1), (32768, 0), (0, 0), (32768, 1)):
        for lo in range(0, 512, step):
            quick = (b, st) in full or ((b, st) in some and (lo // step) % 8 == 7)
            r.append(ou("%s_%d_%d_%d" % (nm, b, st, lo), entry, fn, b, st, lo, lo + step, tier="quick" if quick else "thorough", **kw))
    return r


prop("P16", chunks("row", "h_row", "output_table_line", [(0, 1)], [(32768, 0)]) +
     [ou("rows2_%d" % lo, "h_row", "output_table_line", 0, 1, lo, lo + 6, nk=2, kind="bounded", bound="2 statistics per test") for lo in (190, 506)] +
     [ou("line_header_%d_%d_%d" % (b, st, lo), "h_header", "output_table_line_header", b, st, lo, lo + 64, tier="quick" if b == 0 or lo == 448 else "thorough")
      for b, st in ((0, 1), (32768, 0), (1, 0)) for lo in range(0, 512, 64)] +
     [ou("psample_values", "h_psamples", "output_table_line", kind="bounded", bound="at most 3 p-values")] +
     [ou("rng_info_%d_%d" % (b, st), "h_rnginfo", "output_rng_info", b, st) for b in (0, 32768) for st in (0, 1)])

RT = "dieharder/run_test.c"
XP = [("1e-6", "0.005"), ("0.0005", "0.1"), ("0.05", "0.05"), ("0.2", "0.45")]


def ttd_rounds(k, r, name):
    return Unit(name, "ttd.c", "h_execute", "execute_test", [RT], kind="bounded", unwind=5,
                defines=["XF=%s" % XP[k][0], "XW=%s" % XP[k][1], "ROUNDS=%d" % r],
                bound="%d rounds of samples, at most 3 statistics, thresholds %s/%s" % (r, XP[k][0], XP[k][1]))


TTD_LOOP = lc("execute_test", [(0, "need_more_p, smallest_p, i, g_round, g_stop, g_output_due, g_reported, i_, fail_, weak_, __CPROVER_object_whole(T)",
    "need_more_p <= 1 && g_round >= 0 && g_round == g_reported && !g_output_due && (g_round == 0 ? need_more_p == 1 : need_more_p == !g_stop)",
    None, ["need_more_p", "smallest_p", "i"])])
prop("P14",
     [Unit("execute_test_loop_%d" % k, "ttd.c", "h_execute", "execute_test", [RT], unwind=5,
           defines=["XF=%s" % XP[k][0], "XW=%s" % XP[k][1], "ROUNDS=2000000000"], pre_unwind=["execute_test.0:4"],
           loop_contracts=TTD_LOOP, shape=True, search=False, fallback=[ttd_rounds(k, 3, "ttd_fb_%d" % k)],
           what="any number of rounds (loop invariant), thresholds %s/%s, at most 3 statistics" % XP[k]) for k in range(4)] +
     [ttd_rounds(k, 3, "execute_test_rounds_%d" % k) for k in range(4)] +
     [Unit("run_test", "ttd.c", "h_run", "run_test", [RT], unwind=1002, unwindset=["execute_test.0:4", "strncmp.0:130"])])

ST = "libdieharder/std_test.c"
STD_LOOP = lc("add_2_test", [(0, "i, g_next", "i == g_next && i <= imax && imax == g_expect && imax <= g_cap[0]", "imax - i", ["i", "imax"])])


def life(n, al, mul, std, ps, xt, xoff, xstep):
    return Unit(n, "drv.c", "h_life", "create_test, std_test, add_2_test, destroy_test", [ST], kind="bounded", unwind=8,
                defines=["REALBUF", "NK=2", "C_ALL=%d" % al, "C_MUL=%s" % mul, "C_STD=%d" % std, "C_PS=%d" % ps, "C_XT=%d" % xt,
                         "C_XOFF=%d" % xoff, "C_XSTEP=%d" % xstep], flags=["--memory-leak-check"],
                bound="2 statistics; all=%d multiplier=%s standard=%d requested=%d strategy=%d cutoff=%d step=%d" % (al, mul, std, ps, xt, xoff, xstep))


LIFE = [(0, "1.0", 2, 3, 0, 6, 2), (0, "1.0", 2, 0, 0, 6, 2), (1, "1.0", 2, 3, 2, 6, 3), (1, "0.25", 2, 0, 1, 5, 1),
        (0, "1.0", 2, 2, 2, 5, 2), (0, "1.0", 2, 4, 1, 3, 2), (0, "2.0", 2, 0, 2, 6, 4), (1, "1.5", 2, 5, 0, 3, 1)]
prop("P13", [Unit("std_test", "drv.c", "h_std", "std_test, add_2_test", [ST], unwind=5, pre_unwind=["add_2_test.1:4", "std_test.0:4", "std_test.1:4"],
                  loop_contracts=STD_LOOP, shape=True, search=False, fallback=[life("life_fb", *LIFE[4])],
                  what="any number of samples, step and cutoff below 2^31; at most 3 statistics")] +
     [life("test_life_%d" % k, *c) for k, c in enumerate(LIFE)])

FR, FT, FS = "libdieharder/rng_file_input_raw.c", "libdieharder/rng_file_input.c", "libdieharder/rng_stdin_input_raw.c"


def dbl(pre, mk, base=()):
    """floating point output: all words in the thorough tier (a division circuit), sampled words in the quick tier"""
    r = []
    for k, w in enumerate((None, "0u", "1u", "0x12345678u", "0x7fffffffu", "0x80000000u", "0xfffffffeu", "0xffffffffu")):
        u = mk("%s_double_%s" % (pre, w or "all"), timeout=600 if w is None else 240, tier="thorough" if w is None else "quick",
               kind="proof" if w is None else "bounded", bound=None if w is None else "the word " + w)
        u.defines = list(u.defines) + list(base) + (["DW=" + w] if w else [])
        r.append(u)
    return r


def raw(name, entry, fn="file_input_raw_set, file_input_raw_get", nw=0, steps=0, reseed=False, **kw):
    d = (["NW=%d" % (nw + 1), "NWORDS=%d" % nw, "STEPS=%d" % steps] if nw else []) + (["RESEED"] if reseed else [])
    kw.setdefault("unwind", max(nw, steps, 8) + 4)
    return Unit(name, "fin.c", entry, fn, [FR, FT], defines=d, **kw)


def raw_hist(name, nw, steps, reseed=False):
    return raw(name, "h_raw_history", nw=nw, steps=steps, reseed=reseed, kind="bounded",
               bound="file of %d words (and 0..3 stray bytes), %d requests%s" % (nw, steps, " with arbitrary reseeding" if reseed else ""), vacuity=nw >= 16)


prop("P09", [raw("raw_step", "h_raw_step", shape=True, fallback=[raw_hist("raw_fb", 16, 36), raw_hist("raw_fb2", 17, 20, True)],
                 what="any file size below 2^40, any reading position and counts, any operation"),
             raw("raw_refuse", "h_raw_refuse", vacuity=False),
             raw_hist("raw_history_16", 16, 36), raw_hist("raw_history_17_reseed", 17, 20, True), raw_hist("raw_small_15", 15, 1),
             raw("raw_second", "h_raw_second", nw=16, steps=18, kind="bounded", bound="two generators, file of 16 words, 18 requests")] + dbl("raw", lambda n, **kw: raw(n, "h_raw_double", fn="file_input_raw_get_double", **kw)))


def txt(name, entry, ty, count=3, nbits=32, steps=0, order=0, op=0, fb=12, **kw):
    lines = ["type: %s\\n" % ty, "count: %d\\n" % count, "numbit: %d\\n" % nbits]
    if order == 1:
        lines = ["#==\\n", "# g\\n"] + lines[:1] + ["# c\\n"] + lines[1:]
    if order == 2:
        lines = [lines[2], lines[0], "#\\n", lines[1]]
    d = ["V_TEXT"] + (["FBITS=%d" % fb] if ty in FLT else []) + [ "TYPE='%s'" % ty, "COUNT=%d" % count, "NBITS=%d" % nbits, "STEPS=%d" % steps, "OP=%d" % op, "SEED=%s" % ("1UL", "0x100000000UL", "4294967295UL")[order],
         "HDR=" + ",".join('"%s"' % x for x in lines)]
    kw.setdefault("unwind", 36)
    kw.setdefault("flags", ["--max-field-sensitivity-array-size", "64"])
    return Unit(name, "fin.c", entry, kw.pop("fn", "file_input_set, file_input_get"), [FT], defines=d, **kw)


def txt_hist(name, ty, count, steps, **kw):
    return txt(name, "h_text_history", ty, count, steps=steps, kind="bounded",
               bound="type %s, %d values announced, %d requests with arbitrary reseeding" % (ty, count, steps), **kw)


FLT = "eEfFg"
TY = "diueEfFgoxXb"
def tyn(t): return ("up" if t.isupper() else "") + t


prop("P10", [txt("text_get_%s" % tyn(t), "h_text_step", t, count=5 + 7 * k, nbits=(31 if t == "b" else 32), order=k % 3, op=0, shape=True,
                 fallback=[txt_hist("text_fb_%s" % tyn(t), t, 2, 5)], what="any reading position and counts" + (", values k/2^12" if t in FLT else ""),
                 kind="bounded" if t in FLT else "proof", bound="values that are multiples of 2^-12" if t in FLT else None) for k, t in enumerate(TY)] +
     [txt("text_reseed_%d" % op, "h_text_step", "d", count=5, order=op, op=op, shape=True, fallback=[txt_hist("text_fb_r%d" % op, "d", 2, 5)],
          what="any reading position and counts") for op in (1, 2)] +
     [txt("text_bad_%s" % tyn(t), "h_text_step", t, count=4, op=3, vacuity=False, what="missing or unconvertible value") for t in TY] +
     [txt("text_bin_%d" % nb, "h_text_step", "b", nbits=nb) for nb in (1, 8, 24, 32)] +
     [txt_hist("text_history_%s" % t, t, c, 5, order=c - 1) for t, c in (("d", 1), ("u", 2), ("x", 3))] +
     dbl("text", lambda n, **kw: txt(n, "h_text_double", "u", fn="file_input_get_double", **kw)) +
     [Unit(n, "parsel.c", "h_" + n, n, ["libdieharder/parse.c"], defines=["SPLIT=8"], unwind=14, extra=[],
           shrink=[("include/dieharder/parse.h", "PK", 8), ("include/dieharder/parse.h", "PBUF", 10)],
           kind="bounded", bound="lines of at most 8 characters; field table reduced to 8 fields of 10 bytes") for n in ("split", "chop")])
prop("P11", [Unit("stdin_get", "fin.c", "h_stdin", "stdin_input_raw_set, stdin_input_raw_get", [FS], defines=["V_STDIN", "NREQ=3"], unwind=8,
                  what="each request from any history: the generator keeps no state")] + dbl("stdin", lambda n, **kw: Unit(n, "fin.c", "h_stdin", "stdin_input_raw_get_double", [FS], unwind=8, **kw), ["V_STDIN", "NREQ=1", "DBL"]))

LD = "libdieharder/"


def gen(name, entry, fn, src, gt, st, defs=(), rng=None, files=(), **kw):
    d = ['SRC="%s"' % src, "GT=%s" % gt, "STATE_T=%s" % st] + list(defs)
    kw.setdefault("unwind", 16)
    return Unit(name, "gen.c", entry, fn, [LD + src] + list(files), defines=d, **kw)


NOINV = ["INV=(void)0", "SAVE=(void)0", "RESTORE=(void)0"]
XORA = ("rng_XOR.c", "gsl_rng_XOR", "XOR_state_t")
KISSA = ("rng_kiss.c", "gsl_rng_kiss", "kiss_state_t")
SKA = ("rng_superkiss.c", "gsl_rng_superkiss", "superkiss_state_t")
AESA = ("rng_aes.c", "gsl_rng_aes", "AES_state_t")
TFA = ("rng_threefish.c", "gsl_rng_threefish", "Threefish_state_t")
CAA = ("rng_ca.c", "gsl_rng_ca", "ca_state_t")
UVA = ("rng_uvag.c", "gsl_rng_uvag", "uvag_state_t")
AES = ["CIPHER=1", "BLKWORDS=4"]
TF = ["CIPHER=2", "BLKWORDS=16"]
SKSHR = [(LD + "rng_superkiss.c", "SUPERKISS_QMAX", 10)]
KSHR = [(LD + "rngs_gnu_r.c", m, v) for m, v in (("KK", 10), ("LL", 3), ("TT", 7), ("QUALITY", 21))]
CASHR = [(LD + "rng_ca.c", "CA_WIDTH", 24)]
RA = [("rngs_gnu_r.c", "gsl_rng_r_" + g, "r_rng_tab_t") for g in ("wichmann_hill", "marsaglia_mc", "super_duper", "mersenne_twister", "knuth_taocp", "knuth_taocp2")]
DET = ["DETERM", "NOUTS=3", "PRE=(void)0"]
FRM = ["FRAME"]
RG = ["RANGE"]


def hist(n, a, s1, s2, npre, defs=["PRE=(void)0"], **kw):
    return gen(n, "h_hist", a[1], *a, defs=defs + ["HIST", "NOUTS=3", "NPRE=%d" % npre, "HSEED=" + s1, "HSEED2=" + s2], kind="bounded",
               bound="%s after %s and %d outputs" % tuple([("any seed" if "vin" in x else "seed " + x) for x in (s1, s2)] + [npre]), **kw)


def inv(i="(void)0", save="(void)0", rest="(void)0"):
    return ["INV=" + i, "SAVE=" + save, "RESTORE=" + rest]


def dev(n):
    return ("rng_dev_%s.c" % n, "gsl_rng_dev_" + n, "dev_%s_state_t" % n)


UVI = inv("do{unsigned q_;for(q_=0;q_<259;q_++)svec[q_]=(unsigned char)vin();sindex=(unsigned char)vin();rndint=(unsigned)vin();}while(0)")
CAI = inv("do{unsigned q_;for(q_=0;q_<CA_WIDTH;q_++)init_config[q_]=(unsigned char)vin();first_cell=init_config;last_cell=init_config+CA_WIDTH-1;"
          "cell_d=last_cell-4*vin_range(0,CA_WIDTH/4-1);}while(0)")
SKI = inv("ST.indx=(unsigned)vin_range(0,SUPERKISS_QMAX)")
DW = ("0xFFFFFFFFFFFFFFFFULL", "0x7FFFFFFF9234567BULL")
DEVS = ("random", "urandom", "arandom")
prop("P04", [gen("kiss_range", "h_range", "kiss_get", *KISSA, defs=RG + inv()),
             gen("superkiss_range", "h_range", "superkiss_get", *SKA, defs=RG + SKI, shrink=SKSHR, kind="bounded", bound="table reduced to 10 entries"),
             gen("aes_range", "h_range", "aes_get", *AESA, defs=RG + AES + inv("ST.pos=(short)(4*vin_range(0,4))"), unwind=18),
             gen("threefish_range", "h_range", "threefish_get", *TFA, defs=RG + TF + inv("ST.pos=(short)(4*vin_range(0,16))"), unwind=18),
             gen("uvag_range", "h_range", "uvag_get", *UVA, defs=RG + ["UVAG"] + UVI, unwind=262),
             gen("ca_range", "h_range", "ca_get", *CAA, defs=RG + CAI, unwind=66, shrink=[(LD + "rng_ca.c", "CA_WIDTH", 64)], kind="bounded", bound="64 cells")] +
     [gen("dev_%s_range" % n, "h_range", "dev_%s_set, dev_%s_get" % (n, n), *dev(n), defs=RG + ['DEVFILE="/dev/%s"' % n] + inv("GT->set(&ST,vin())")) for n in DEVS] +
     [gen("dev_%s_double_%d" % (n, i), "h_double", "dev_%s_get_double" % n, *dev(n), defs=RG + ['DEVFILE="/dev/%s"' % n, "DEVWORD=" + w] + inv("GT->set(&ST,vin())"),
          kind="bounded", bound="device word " + w) for n in DEVS for i, w in enumerate(DW)] +
     [gen("kiss_double", "h_double", "kiss_get_double", *KISSA, defs=RG + inv("(ST.x=2863311530u,ST.y=858993459u,ST.z=4042322160u,ST.c=77)"), kind="bounded", bound="one state"),
      gen("superkiss_double", "h_double", "superkiss_get_double", *SKA, defs=RG + inv("(ST.indx=0,ST.Q[0]=4026531840u,ST.xcng=2863311530u,ST.xs=858993459u,ST.carry=7)"), shrink=SKSHR, kind="bounded", bound="one state"),
      gen("uvag_double", "h_double", "uvag_get_double", *UVA, defs=RG + ["UVAG"] + inv("(sindex=3,rndint=4026531840u)", "(void)0", "(sindex=3,rndint=4026531840u,svec[0]=svec[1]=svec[2]=svec[3]=0)"), kind="bounded", bound="one state", unwind=262)] +
     [gen(a[1][8:] + "_range", "h_range", "unif_rand, r_rng_get", *a, defs=RG + ["RGEN"] + inv("GT->set(&ST,77)"), unwind=1300, shrink=sh,
          kind="bounded", bound="the first output after seed 77 (every value: contract of fixup, r_fixup)") for a, sh in [(x, []) for x in RA[:4]] + [(x, KSHR) for x in RA[4:]]] + [
      gen("r_fixup", "h_fixup", "fixup", *RA[0], defs=["RGEN"])])
prop("P05", [gen("kiss_seed", "h_determ", "kiss_set, kiss_get", *KISSA, defs=DET, backend="z3"),
             gen("superkiss_seed", "h_determ", "superkiss_set, superkiss_get", *SKA, defs=DET, backend="z3", shrink=SKSHR, kind="bounded", bound="table reduced to 10 entries"),
             gen("uvag_seed", "h_uvag", "uvag_set", *UVA, defs=["UVAG"], kind="bounded", bound="one fixed key", unwind=262),
             hist("ca_seed", CAA, "77", "12345", 5, shrink=CASHR, unwind=150),
             hist("xor_seed", XORA, "vin()", "vin()", 2, defs=["NCOMP=3", "PRE=(gvcount=3,gnumbs[1]=1,gnumbs[2]=2)"]),
             hist("ca_seed_0", CAA, "0", "12345", 5, shrink=CASHR, unwind=150), hist("ca_seed_1", CAA, "1", "0", 5, shrink=CASHR, unwind=150),
             gen("aes_seed", "h_ofb", "aes_set, aes_get", *AESA, defs=AES, kind="bounded", bound="10 outputs after seeding", unwind=18),
             gen("threefish_seed", "h_ofb", "threefish_set, threefish_get", *TFA, defs=TF, kind="bounded", bound="34 outputs after seeding", unwind=66)] +
     [hist("%s_seed_%s" % (a[1][8:], s), a, s, t, 5, unwind=1300, shrink=KSHR if k > 3 else []) for k, a in enumerate(RA) for s, t in (("0", "12345"), ("1", "0"))] +
     [gen(n + "_frame", "h_frame", n + "_set", *a, defs=FRM + x, unwind=u, shrink=sh, **({"kind": "bounded", "bound": "reduced table"} if sh else {})) for n, a, x, u, sh in
      (("kiss", KISSA, [], 16, []), ("superkiss", SKA, [], 16, SKSHR), ("aes", AESA, AES, 66, []), ("threefish", TFA, TF, 66, []), ("ca", CAA, ["FSEED=77"], 150, CASHR))] +
     [hist(a[1][8:] + "_seed", a, "77", "12345", 5, unwind=1300) for a in RA[:4]] +
     [hist(a[1][8:] + "_seed", a, "77", "12345", 5, unwind=1300, shrink=KSHR) for a in RA[4:]])
prop("P06", [gen("xor", "h_xor", "XOR_set, XOR_get", *XORA, defs=["XORGEN", "NCOMP=4"], kind="bounded", bound="at most 4 components, 3 outputs", unwind=14)])
prop("P07", [gen("aes_ofb", "h_ofb", "aes_set, aes_get", *AESA, defs=AES, kind="bounded", bound="10 outputs after seeding", unwind=18),
             gen("aes_step", "h_ofb_step", "aes_get", *AESA, defs=AES, shape=True),
             gen("threefish_ofb", "h_ofb", "threefish_set, threefish_get", *TFA, defs=TF, kind="bounded", bound="34 outputs after seeding", unwind=66),
             gen("threefish_step", "h_ofb_step", "threefish_get", *TFA, defs=TF, shape=True, unwind=20)])
prop("P08", [gen("kiss_set", "h_kiss_set", "kiss_set", *KISSA, defs=["KISS"], kind="bounded", bound="at most 10 zero seed words"),
             gen("kiss_get", "h_kiss_get", "kiss_get", *KISSA, defs=["KISS"], backend="z3"),
             gen("kiss_inv", "h_kiss_get", "kiss_get", *KISSA, defs=["KISS", "INVSTEP"], backend="z3", timeout=400),
             gen("superkiss_get", "h_skiss_get", "superkiss_get", *SKA, defs=["SKISS"], backend="z3"),
             gen("superkiss_refill", "h_skiss_refill", "superkiss_refill", *SKA, defs=["SKISS"], backend="z3", shrink=SKSHR, kind="bounded", bound="table reduced to 10 entries"),
             gen("superkiss_set", "h_skiss_set", "superkiss_set", *SKA, defs=["SKISS"], shrink=SKSHR, kind="bounded", bound="table reduced to 10 entries"),
             gen("uvag_get", "h_uvag_get", "uvag_get", *UVA, defs=["UVAG"], unwind=262)])

ORF = "dieharder/output_rnds.c"


def rnds(n, entry, fmt, count, defs=(), **kw):
    kw.setdefault("unwind", 100)
    return Unit(n, "rnds.c", entry, "output_rnds", [ORF], defines=["FMT=%d" % fmt, "COUNT=%d" % count] + list(defs), **kw)


ORL = lc("output_rnds", [(0, "i, j, g_drawn, g_written, g_last", "g_drawn == i && g_written == i && i <= tsamples && g_seeded == 1 && !g_closed", "tsamples - i", ["i", "j"]),
                         (1, "j, g_drawn, g_written, g_last", "g_drawn == g_written && tsamples == 0", None, ["j"])] +
         [(k, "i, %s, g_drawn, g_written, %s" % (v, g), "g_drawn == i && g_written == i && i <= tsamples && g_seeded == 1 && !g_closed", "tsamples - i", ["i", v]) for k, v, g in ((2, "j", "g_last"), (3, "d", "g_lastd"))])
prop("P12", [rnds("dump_bin_any", "h_dump_any", 0, 0, defs=["LIGHT"], loop_contracts=ORL, shape=True, search=False, probe="h_probe", fallback=[rnds("dump_bin_fb", "h_dump", 0, 3, kind="bounded", bound="3 values")],
                  what="any number of values (loop invariant)")] +
     [rnds("dump_%s_%d" % (("bin", "uint", "dec")[f], c), "h_dump", f, c, kind="bounded", bound="%d values" % c) for f in (0, 1, 2) for c in ((1, 3) if f == 0 else (0, 1, 3))] +
     [rnds("dump_%s_any" % n, "h_dump_any", f, 0, defs=["LIGHT"], loop_contracts=ORL, shape=True, search=False, probe="h_probe", fallback=[rnds("dump_%s_fb" % n, "h_dump", f, 3, kind="bounded", bound="3 values")],
           what="any number of values is drawn (loop invariant); the text written for each is decided by the other units") for f, n in ((1, "uint"), (2, "dec"))] +
     [rnds("header_%s" % n, "h_header", f, 0, defs=["HDRONLY"], vacuity=False, what="the text header, for any count") for f, n in ((1, "uint"), (2, "dec"))] +
     [rnds("dump_pump", "h_pump", 0, 0, defs=["PUMP=5"], vacuity=False, kind="bounded", bound="the first 5 values")])
CR = "dieharder/choose_rng.c"


def sel(n, entry, defs=(), **kw):
    kw.setdefault("unwind", 1002)
    kw.setdefault("unwindset", ["strncmp.0:24", "strcmp.0:24", "strcpy.0:24", "strlen.0:24"])
    return Unit(n, "sel.c", entry, "select_rng" if entry == "h_select" else "choose_rng, select_rng", [CR], defines=list(defs), **kw)


prop("P17", [sel("by_number", "h_select"), sel("choose_by_number", "h_choose")] +
     [sel("by_name_%d" % k, "h_select", ["BYNAME=%d" % k] + (["NOVAC"] if k > 6 else []), vacuity=k <= 6, kind="bounded", bound="a table of 8 generators; name %d of 12" % k) for k in range(12)])


def rank(n, rows, cols, live=None, **kw):
    return Unit(n, "brank.c", "h_rank", "binary_rank", [LD + "rank.c"], defines=["RANK", "ROWS=%d" % rows, "COLS=%d" % cols] + (["LIVE=%s" % live] if live else []), extra=["dieharder/globals.c"],
                unwind=max(cols, rows) + 2, kind="bounded", bound="%d rows, %d columns%s" % (rows, cols, ", free bits %s" % live if live else ""), **kw)


def rankw(n, rows, cols, live=None, **kw):
    u = rank(n, rows, cols, live, unwindset=["binary_rank.7:%d" % (cols + 1)], shape=True, fallback=[rank(n + "_fb", 4, 5)], **kw)
    u.unwind = rows + 3
    return u


def ranktest(n, rows, cols, lowest):
    return Unit("rank_test_" + n, "brank.c", "h_ranktest", "diehard_rank_" + n, [LD + "diehard_rank_%s.c" % n], unwind=100, kind="bounded", bound="3 matrices",
                defines=['SRC="diehard_rank_%s.c"' % n, "TEST=diehard_rank_" + n, "NROW=%d" % rows, "NCOL=%d" % cols, "LOWEST=%d" % lowest])


prop("P20", [rank("rank_1x8", 1, 8), rank("rank_2x8", 2, 8), rank("rank_3x6", 3, 6), rank("rank_4x3", 4, 3), rank("rank_4x5", 4, 5),
             rankw("rank_2x32", 2, 32), rankw("rank_2x40", 2, 40), rankw("rank_3x64", 3, 64, "0xc0000001"),
             rank("rank_5x4", 5, 4, tier="thorough", timeout=1500), rank("rank_6x8", 6, 8, tier="thorough", timeout=3000), rankw("rank_3x32", 3, 32, tier="thorough", timeout=1500),
             ranktest("32x32", 32, 32, 29), ranktest("6x8", 6, 8, 2)])

EVL = "libdieharder/"
def ev(name, entry, fn, f, defs, **kw):
    kw.setdefault("kind", "bounded")
    kw.update(extra=[], native_extra=["dieharder/globals.c"], subst=[("include/dieharder/diehard_operm5.h", "long double", "real_ld")])
    return Unit(name, "evl.c", entry, fn, [EVL + f], defines=defs, **kw)
SMALL = ["SMALLFP=16", "SMALLFM=10"]
KS = "kstest.c"
KSF = "libdieharder/kstest.c"
prop("P21",
     [ev("vtest_%d_%d_%d" % (n, g, lo), "h_vtest", "Vtest_create, Vtest_eval, Vtest_destroy", "Vtest.c",
         ["U_VTEST", "NB=%d" % n, "GIVEN=%d" % g, "LO=%d" % lo, "HI=%d" % (lo + 16)] + SMALL, unwind=7, unwindset=["h_vtest.0:20"],
         bound="%d classes, expected counts from {1,2,4,8}, observed 0..7" % n, tier="quick" if n == 3 else "thorough")
      for n, g in ((3, 0), (3, 5), (4, 0)) for lo in range(0, 4 ** n, 16)] +
     [ev("vtest_zero_%d_%d" % (w, g), "h_vzero", "Vtest_create, Vtest_eval, Vtest_destroy", "Vtest.c",
         ["U_VTEST", "NB=5", "GIVEN=%d" % g, "LO=0", "HI=0", "WHICH=%d" % w] + SMALL, unwind=7, bound="5 classes, expected counts from a list, observed 0..7") for w in range(5) for g in (0, 5) if w or g] +
     [ev("xtest", "h_xtest", "Xtest_eval", "Xtest.c", ["U_XTEST"] + SMALL, bound="16-bit floating point values")] +
     [ev("poisson_%d" % k, "h_poisson", "chisq_poisson", "chisq.c", ["U_CHI", "GEO=0", "KM=%d" % k] + SMALL, unwind=7, bound="%d classes" % k) for k in (1, 2, 3)] +
     [ev("geometric_%d" % k, "h_poisson", "chisq_geometric", "chisq.c", ["U_CHI", "GEO=1", "KM=%d" % k] + SMALL, unwind=7, bound="%d classes" % k) for k in (1, 3)] +
     [ev("pearson_%d" % k, "h_pearson", "chisq_pearson", "chisq.c", ["U_CHI", "GEO=0", "KM=%d" % k] + SMALL, unwind=7, bound="%d classes" % k) for k in (1, 3)] +
     [ev("binomial_%d" % k, "h_binomial", "chisq_binomial", "chisq.c", ["U_CHI", "GEO=0", "KM=%d" % k] + SMALL, unwind=7, bound="%d classes" % (k + 1)) for k in (2, 4)] +
     [ev("gtest_%d" % k, "h_gtest", "chisq_uint_uniform_gtest", "chisq.c", ["U_CHI", "GEO=0", "KM=%d" % k] + SMALL, unwind=7, bound="%d classes" % k) for k in (3,)] +
     [ev("ks_%d" % k, "h_ks", "kstest", KS, ["U_KS", "VAR=0", "NP=%d" % k] + SMALL, unwind=7, replace=["p_ks_new"], unwindset=["vsqrt.0:62"], bound="%d samples" % k) for k in (2, 3, 4)] +
     [ev("ks_asymptotic_%d" % k, "h_ks", "kstest", KS, ["U_KS", "VAR=1", "NP=%d" % k] + SMALL, unwind=7, replace=["q_ks"], unwindset=["vsqrt.0:62"], shrink=[(KSF, "KCOUNTMAX", "1")],
         bound="%d samples, switch-over to the asymptotic form reduced to 1" % k) for k in (2, 3)] +
     [ev("kuiper_%d" % k, "h_ks", "kstest_kuiper", KS, ["U_KS", "VAR=2", "NP=%d" % k] + SMALL, unwind=7, replace=["q_ks_kuiper"], unwindset=["vsqrt.0:62"], bound="%d samples" % k) for k in (2, 3)] +
     [ev("ks_degenerate", "h_ks", "kstest, kstest_kuiper", KS, ["U_KS", "VAR=9", "NP=2"] + SMALL, unwind=7, kind="proof", replace=["p_ks_new", "q_ks", "q_ks_kuiper"], what="no sample or one sample")] +
     [ev("mpower_%d_%d" % (m, n), "h_mpow", "mPower, mMultiply", KS, ["U_MAT", "MM=%d" % m, "NPOW=%d" % n] + SMALL, unwind=11, bound="%dx%d matrix with entries 0..2, power %d" % (m, m, n))
      for m, n in ((1, 1), (2, 2), (2, 3), (2, 4), (3, 2), (2, 5))] +
     [ev("ks_distribution", "h_dist", "p_ks_new", KS, ["U_DIST"], unwind=70, unwindset=["vpow.0:302", "vpow.1:302"], bound="1, 2 and 3 samples, deviations k/64"),
      ev("mpower_scale", "h_mscale", "mPower", KS, ["U_DIST"], unwind=10, unwindset=["vpow.0:302", "vpow.1:302"], bound="three powers of one matrix"),
      ev("ks_series", "h_series", "q_ks, q_ks_kuiper, p_ks_new", KS, ["U_DIST"], unwind=130, bound="selected arguments, stand-in for exp()")],
     level="model_checking")


def tal(n, fn, src, defs, entry="h_tal", **kw):
    kw.setdefault("bound", "few samples")
    kw.setdefault("unwind", 34)
    return Unit(n, "tal.c", entry, fn, [EVL + src], kind="bounded", defines=defs, extra=[], native_extra=["dieharder/globals.c"],
                subst=[("include/dieharder/diehard_operm5.h", "long double", "real_ld")], **kw)


S20 = ["SMALLFP=24", "SMALLFM=16"]
S16 = ["SMALLFP=16", "SMALLFM=10"]
BDAY = ["NWORDS=4", "NM=4", "KMX=3", "RMB=32", "VMASK=7"]
BNMS = [("libdieharder/diehard_birthdays.c", "NMS", 4)]
R32 = ["U_VTEST", "U_RANK", "ROWS=32", "COLS=32", "LOWEST=29", "VMAX=33", 'SRC="diehard_rank_32x32.c"', "TEST=diehard_rank_32x32"]
R68 = ["U_VTEST", "U_RANK", "ROWS=6", "COLS=8", "LOWEST=2", "VMAX=7", 'SRC="diehard_rank_6x8.c"', "TEST=diehard_rank_6x8"]
MDP = "PATTERN={{1,1,3,1,1,3,2,3,3,3,3,3,1,2,1},{1,2,1,1,1,3,3,3,3,1,1,1,1,1,1},{3,1,1,1,3,2,2,2,2,2,2,1,2,1,3}}"
TAL2 = [tal("rank_32x32", "diehard_rank_32x32", "diehard_rank_32x32.c", R32 + ["TS=2", "NWORDS=64"] + S16, unwind=66),
        tal("rank_6x8", "diehard_rank_6x8", "diehard_rank_6x8.c", R68 + ["TS=2", "NWORDS=12"] + S16),
        tal("rank_32x32_expected", "diehard_rank_32x32", "diehard_rank_32x32.c", R32 + ["TS=1", "NWORDS=32"], unwind=1100, entry="h_exp"),
        tal("rank_6x8_expected", "diehard_rank_6x8", "diehard_rank_6x8.c", R68 + ["TS=1", "NWORDS=6"], unwind=66, entry="h_exp"),
        tal("squeeze", "diehard_squeeze", "diehard_squeeze.c", ["U_VTEST", "U_SQUEEZE", "VMAX=43"], unwind=66),
        tal("2dsphere", "diehard_2dsphere, distance, compare_points", "rgb_minimum_distance.c", ["U_DIST", "SPHERE2", "DIM=2", "NPT=3", "NWORDS=6", "GRID=3", "UNIT=1", "SCALE=10000", "BIG=10000", 'SRC="diehard_2dsphere.c"', "TEST=diehard_2dsphere"] + S20)] + \
       [tal("minimum_distance_%d_%d" % (d, w), "rgb_minimum_distance, distance, compare_points", "rgb_minimum_distance.c",
            ["U_DIST", "DIM=%d" % d, "NPT=3", "NWORDS=%d" % (3 * d), "GRID=3", "UNIT=0.125", "SCALE=1", "BIG=1", "TEST=rgb_minimum_distance", "WHICH=%d" % w, MDP]) for d in (2, 3, 4, 5) for w in (0, 1, 2)] + \
       [tal("3dsphere", "diehard_3dsphere", "diehard_3dsphere.c", ["U_SPH3", "NWORDS=9"] + S20, shrink=[("libdieharder/diehard_3dsphere.c", "POINTS_3D", 3)]),
        tal("monobit2", "dab_monobit2", "dab_monobit2.c", ["U_MONO2", "NWORDS=6", "RMB=8"] + S16),
        tal("monobit2_32", "dab_monobit2", "dab_monobit2.c", ["U_MONO2", "NWORDS=2", "RMB=32"] + S16, unwind=67)]
prop("P22",
     [tal("monobit", "sts_monobit", "sts_monobit.c", ["U_MONOBIT", "NWORDS=2"] + S16, bound="2 outputs of any width"),
      tal("sts_runs", "sts_runs", "sts_runs.c", ["U_RUNS", "NWORDS=2", "RMB=4"] + S20, bound="2 outputs of 4 bits"),
      tal("lagged_0", "rgb_lagged_sums", "rgb_lagged_sums.c", ["U_LAG", "NWORDS=3", "TS=3", "LAG=0"] + S20),
      tal("lagged_2", "rgb_lagged_sums", "rgb_lagged_sums.c", ["U_LAG", "NWORDS=6", "TS=2", "LAG=2"] + S20),
      tal("kstest_test", "rgb_kstest_test", "rgb_kstest_test.c", ["U_KST", "NWORDS=3"] + S20)] +
     [tal("craps", "diehard_craps", "diehard_craps.c", ["U_VTEST", "U_CRAPS", "NWORDS=8", "GAMES=2", "VMAX=21"] + S20, unwind=24),
      tal("craps_long_0", "diehard_craps", "diehard_craps.c", ["U_VTEST", "U_CRAPS", "NWORDS=60", "GAMES=1", "VMAX=21", "WIN=0"] + S20, unwind=62, entry="h_long"),
      tal("craps_long_1", "diehard_craps", "diehard_craps.c", ["U_VTEST", "U_CRAPS", "NWORDS=60", "GAMES=1", "VMAX=21", "WIN=1"] + S20, unwind=62, entry="h_long"),
      tal("craps_expected", "diehard_craps", "diehard_craps.c", ["U_VTEST", "U_CRAPS", "NWORDS=4", "GAMES=1", "VMAX=21", "WIN=1"], unwind=62, entry="h_exp"),
      tal("birthdays", "diehard_birthdays", "diehard_birthdays.c", ["U_BDAY", "NOADJ", 'SRC="diehard_birthdays.c"', "TEST=diehard_birthdays"] + BDAY, unwind=10, shrink=BNMS),
      tal("birthdays_adjacent", "diehard_birthdays", "diehard_birthdays.c", ["U_BDAY", 'SRC="diehard_birthdays.c"', "TEST=diehard_birthdays"] + BDAY, unwind=10, shrink=BNMS, entry="h_adj"),
      tal("dab_birthdays", "dab_birthdays1", "dab_birthdays1.c", ["U_BDAY", 'SRC="dab_birthdays1.c"', "TEST=dab_birthdays1"] + BDAY, unwind=10,
          shrink=[("libdieharder/dab_birthdays1.c", "NMS", 8)]),
      tal("birthdays_5", "diehard_birthdays", "diehard_birthdays.c", ["U_BDAY", "NOADJ", 'SRC="diehard_birthdays.c"', "TEST=diehard_birthdays", "NWORDS=5", "NM=5", "KMX=3", "RMB=32", "VMASK=15"], unwind=12,
          shrink=[("libdieharder/diehard_birthdays.c", "NMS", 5)], tier="thorough"),
      tal("dab_birthdays_5", "dab_birthdays1", "dab_birthdays1.c", ["U_BDAY", 'SRC="dab_birthdays1.c"', "TEST=dab_birthdays1", "NWORDS=5", "NM=5", "KMX=3", "RMB=32", "VMASK=15"], unwind=12,
          shrink=[("libdieharder/dab_birthdays1.c", "NMS", 8)], tier="thorough"),
      tal("sts_runs_16", "sts_runs", "sts_runs.c", ["U_RUNS", "NWORDS=2", "RMB=8"] + S20, bound="2 outputs of 8 bits", tier="thorough"),
      tal("monobit_3", "sts_monobit", "sts_monobit.c", ["U_MONOBIT", "NWORDS=3"] + S20, bound="3 outputs of any width", tier="thorough"),
      tal("permutations_3", "rgb_permutations", "rgb_permutations.c", ["U_VTEST", "U_PERM", "KP=3", "NT=3", "NWORDS=6"] + S20, unwind=26),
      tal("permutations_2", "rgb_permutations", "rgb_permutations.c", ["U_VTEST", "U_PERM", "KP=2", "NT=2", "NWORDS=4"] + S20, unwind=26),
      tal("diehard_runs", "diehard_runs", "diehard_runs.c", ["U_DRUNS", "NWORDS=12"], unwind=30)] + TAL2,
     level="model_checking")
