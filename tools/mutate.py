#!/usr/bin/env python3
"""Mutation runs: small changes of one line of a source file, in a copy of /repo; reports which ones no listed check notices.
usage: mutate.py [-n PER_FILE] [-o LOG] [-s SEED] [file=C01,C02 ...]"""
import os, random, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
 "src/aes/aes.c": "C01,C19", "src/aes/aes_modes.c": "C03,C04,C06,C08,C05", "src/sm4/sm4_modes.c": "C03,C04,C06,C08,C05", "src/wbsm4/wbsm4_modes.c": "C03,C04,C06,C08,C05", "src/wbaes/wbaes_modes.c": "C03,C04,C06,C08",
 "src/sm4/sm4.c": "C01", "src/modes/cbc128.c": "C03,C16,C20", "src/modes/gcm128.c": "C04,C16,C20", "src/modes/gcm_parallel.c": "C05,C16,C20", "src/modes/gcmfile.c": "C06,C07",
 "src/fpe/ff1.c": "C08,C09,C19,C20", "src/fpe/ff3.c": "C08,C09,C19,C20", "src/fpe/ff1_cmac.c": "C10,C09,C19,C20", "src/fpe/ff3_gmac.c": "C10,C09,C19,C20", "src/fpe/fpe_locl.c": "C08,C09,C19", "src/fpe/init.c": "C08,C09,C10,C19,C20",
 "src/fpe_app/phone.c": "C11,C20", "src/fpe_app/idcard.c": "C11,C20", "src/fpe_app/cn_utf8.c": "C11,C20", "src/fpe_app/utf8_util.c": "C11", "src/fpe_app/init.c": "C11,C19",
 "src/sm3/sm3.c": "C12", "src/sm3/md32_common.h": "C12,C20", "src/sm3/sm3_local.h": "C12", "src/utils/keystore.c": "C07,C13", "src/utils/padding.c": "C03,C01,C16,C20", "src/utils/wrandom.c": "C15,C02",
 "src/wbsm4/wbsm4_exkey.c": "C13,C07,C19", "src/wbsm4/wbsm4_gen.c": "C02,C19", "src/wbsm4/wbsm4.c": "C02,C19", "src/wbaes/wbaes.c": "C02,C19", "src/wbaes/wbaes_local.c": "C02", "src/se_wbsm4/se_wbsm4.c": "C02,C19",
 "src/wbaes/wbaes_wbgcm_ee_mode.c": "C14,C20", "src/wbaes/wbaes_wbgcm_mask_mode.c": "C14,C20", "src/wbaes/wbaes_wbgcm_ee_init.c": "C14", "src/wbaes/wbaes_wbgcm_mask_init.c": "C14", "src/wbaes/wbaes_wbgcm_ee_file.c": "C06,C07,C14,C19", "src/wbaes/wbaes_wbgcm_mask_file.c": "C06,C07,C14,C19",
 "WBMatrix/src/WBMatrix.c": "C15", "WBMatrix/src/random.c": "C15",
 "udf/mysql8.cpp": "C17,C19", "udf/mysql5.cpp": "C17,C19",
}
def mutants(text):
    out = []
    for i, l in enumerate(text.split("\n")):
        c = l.split("//")[0]
        if "THROW" in c or re.match(r"\w.*\(.*[,{)]\s*$", c) or not c.strip() or c.strip().startswith(("#include", "/*", "*", "#if", "#endif", "#ifndef")) or c.count("0x") > 4: continue
        def m(a, b, new): out.append((i, l[:a] + new + l[b:]))
        for x in re.finditer(r"(?<![\w.\"])(\d+)(?![\w.\"])", c):
            v = int(x.group(1)); m(*x.span(1), str(v + 1))
            if v > 0: m(*x.span(1), str(v - 1))
        for x in re.finditer(r"0x([0-9a-fA-F]+)", c): m(*x.span(), hex(int(x.group(1), 16) ^ 1))
        for pat, news in ((r"<=", ["<"]), (r">=", [">"]), (r"(?<![<-])<(?![<=])", ["<="]), (r"(?<![->])>(?![>=])", [">="]), (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<= )\+(?= )", ["-"]), (r"(?<= )-(?= )", ["+"]), (r"\^=", ["=", "|="]), (r"(?<!\|)\|(?=[^|=])", ["&"]), (r"<<", [">>"]), (r">>", ["<<"]), (r"\+=", ["-=", "="]), (r"(?<!\^)\^(?=[^=])", ["|"]), (r"%", ["/"])):
            for x in re.finditer(pat, c):
                for n in news: m(*x.span(), n)
        s = c.strip()
        if s.endswith(";") and not re.match(r"(int|unsigned|char|size_t|long|uint\w+|FILE|BIGNUM|struct|static|const|union|\*|BN_CTX|WBCRYPTO_\w+ \*|return|goto|})\b", s): out.append((i, re.match(r"\s*", l).group(0) + ";"))
    return out
def main():
    n, log, seed, sel = 12, "/tmp/mut/log", 1, {}
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "-n": n = int(a.pop(0))
        elif x == "-o": log = a.pop(0)
        elif x == "-s": seed = int(a.pop(0))
        else: f, _, p = x.partition("="); sel[f] = p or MAP[f]
    os.makedirs("/tmp/mut", exist_ok=True); repo = "/tmp/mut/repo"
    for f, props in (sel or MAP).items():
        text = open("/repo/" + f).read(); ms = mutants(text); random.Random(seed * 1000 + len(ms)).shuffle(ms); st = dict(same=0, killed=0, nobuild=0, survived=0)
        for i, new in ms[:n]:
            shutil.rmtree(repo, ignore_errors=True); subprocess.run(["git", "clone", "-q", "/repo", repo], check=True)
            L = text.split("\n"); old = L[i]; L[i] = new; open(repo + "/" + f, "w").write("\n".join(L))
            cc = ["g++" if f.endswith("cpp") else "gcc", "-fsyntax-only", "-w", "-x", "c++" if f.endswith("cpp") else "c", "-I" + repo + "/include", "-I" + repo + "/src", "-I" + repo + "/WBMatrix/include", "-I/usr/include/mysql", repo + "/" + f]
            if not f.endswith((".h", "cpp")) and subprocess.run(cc, capture_output=True).returncode: st["nobuild"] += 1; continue
            if not f.endswith((".h", "cpp")): # same object code: the same program
                ob = [subprocess.run(["gcc", "-O2", "-w", "-fopenmp", "-x", "c", "-S", "-o", "-", "-I" + r + "/include", "-I" + r + "/WBMatrix/include", "-I" + os.path.dirname("/repo/" + f), "-"], input=tx, text=True, capture_output=True).stdout for r, tx in ((repo, text), (repo, "\n".join(L)))]
                if ob[0] == ob[1] and ob[0]: st["same"] += 1; continue
            res = "SURVIVED"; t = time.time(); seen = []
            for p in props.split(","):
                r = subprocess.run([sys.executable, HERE + "/run.py", p, "quick"], env=dict(os.environ, VP_REPO=repo), capture_output=True, text=True)
                seen.append("%s:%d" % (p, r.returncode))
                if r.returncode == 1 and "VIOLATION" in r.stdout: res = "killed"; break
                if r.returncode not in (0, 1): res = "nobuild" if "build" in r.stdout + r.stderr else "ERROR"; break
            st[res if res in st else "survived"] += 1
            with open(log, "a") as o: o.write("%s %s:%d %s (%.0f s)\n   - %s\n   + %s\n" % (res, f, i + 1, " ".join(seen), time.time() - t, old.strip(), new.strip()))
        with open(log, "a") as o: o.write("== %s %s\n" % (f, st))
    shutil.rmtree(repo, ignore_errors=True)
main()
