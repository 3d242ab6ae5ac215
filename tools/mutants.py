#!/usr/bin/env python3
"""mutants.py OUT.jsonl N SEED [FILE...]   plants up to N small random changes per file, one at a time (in an overlay; /repo
is not touched), and says which checks notice each; for those that none notices, whether the repository's tests do."""
import concurrent.futures as cf, json, os, random, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lab import ENV, V
R = "/repo/"
FILES = {
    "tokenizer.go": "P01 P28 P04 P24 P15 P05 P06 P03 P02 P30 P16 P21 P20",
    "pretokenizer.go": "P34 P01 P10 P28 P03 P02 P21 P24",
    "encoding.go": "P01 P23 P22 P06 P05 P07 P24 P21",
    "added-vocabulary.go": "P04 P01 P20 P24 P15 P21 P16",
    "config.go": "P20", "file-util.go": "P27", "init.go": "P27", "util.go": "P01 P04 P30",
    "model/bpe/bpe.go": "P11 P31 P14 P19 P20 P25 P24 P21 P01", "model/bpe/word.go": "P11 P17 P21 P01",
    "model/bpe/cache.go": "P25 P11 P16", "model/bpe/trainer.go": "P17 P30 P18",
    "model/unigram/unigram.go": "P13 P31 P14 P19 P20 P21", "model/unigram/trie.go": "P13", "model/unigram/lattice.go": "P13",
    "model/wordpiece/wordpiece.go": "P12 P31 P14 P19 P20 P18 P21", "model/wordpiece/trainer.go": "P18",
    "model/wordlevel/wordlevel.go": "P31 P14 P19 P20 P01",
    "normalizer/normalized.go": "P08 P09 P10 P01 P26 P21", "normalizer/pattern.go": "P33 P08 P10 P09",
    "normalizer/bert.go": "P09 P01", "normalizer/unicode.go": "P09", "normalizer/replace.go": "P09 P15", "normalizer/strip.go": "P09",
    "normalizer/prepend.go": "P09", "normalizer/sequence.go": "P09", "normalizer/default.go": "P09", "normalizer/lowercase.go": "P09",
    "normalizer/precompiled.go": "P26", "spm/spm-precompiled.go": "P26", "normalizer/normalizer.go": "P09 P20",
    "pretokenizer/bert.go": "P10", "pretokenizer/bytelevel.go": "P29 P10 P07 P15 P01 P20", "pretokenizer/metaspace.go": "P10 P15",
    "pretokenizer/punctuation.go": "P10", "pretokenizer/digits.go": "P10", "pretokenizer/delimiter.go": "P10",
    "pretokenizer/split.go": "P10", "pretokenizer/unicode-script.go": "P10", "pretokenizer/whitespace.go": "P10",
    "pretokenizer/sequence.go": "P10",
    "processor/bert.go": "P07 P01", "processor/roberta.go": "P07 P01", "processor/template.go": "P07 P20 P01",
    "processor/bytelevel.go": "P07", "processor/sequence.go": "P07",
    "decoder/bpe.go": "P15", "decoder/wordpiece.go": "P15", "decoder/byte-fallback.go": "P15", "decoder/ctc.go": "P15",
    "decoder/fuse.go": "P15", "decoder/strip.go": "P15", "decoder/sequence.go": "P15", "decoder/decoder.go": "P15",
    "pretrained/tokenizer.go": "P20", "pretrained/bert.go": "P32", "pretrained/gpt2.go": "P32", "pretrained/roberta.go": "P32", "pretrained/padding.go": "P20", "pretrained/truncation.go": "P20", "pretrained/normalizer.go": "P20",
    "pretrained/decoder.go": "P20", "pretrained/processor.go": "P20", "pretrained/pretokenizer.go": "P20", "pretrained/model.go": "P20",
    "pretrained/added-tokens.go": "P20", "util/param.go": "P20", "util/util.go": "P20 P30 P01", "util/iterator.go": "P08",
    "util/rune-reader.go": "P08", "util/slice/generic.go": "P01", "util/slice/int.go": "P01", "util/slice/string.go": "P01",
}


def sh(cmd, t, cwd=V, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return 124, ""


def one(m):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    try:
        src = open(m["file"], "rb").read()
        open(d + "/x.go", "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
        json.dump({"Replace": {m["file"]: d + "/x.go"}}, open(d + "/o.json", "w"))
        env = dict(ENV, GOFLAGS="-mod=readonly", VDRV_FIRST="string-marks", VDRV_CPU="20", TMPDIR=d)
        rc, o = sh(["go", "build", "-overlay", d + "/o.json", "-o", d + "/vdrv", "./harness/cmd/vdrv"], 300, env=env)
        if rc:
            m["result"] = "no build"
            return m
        os.makedirs(d + "/v")
        shutil.copy(V + "/known_findings.txt", d + "/v")
        for p in FILES[m["file"][len(R):]].split():
            rc, o = sh([d + "/vdrv", "run", "-prop", p, "-verif", d + "/v", "-worker", d + "/vdrv"], 900, env=dict(env, VERIF_SEED="1"))
            if rc:
                m["result"] = p if rc == 1 else f"{p} rc={rc}"
                m["out"] = "\n".join(l[:300] for l in o.split("\n") if l.startswith("  key="))[:300]
                return m
        tests = {"file-util.go": "./..."}
        rc, o = sh(["go", "test", "-vet=off", "-overlay", d + "/o.json", "-json", "./..."], 600, cwd="/repo", env=dict(ENV, TMPDIR=d))
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        bad = []
        for l in o.split("\n"):
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "fail" and e.get("Test"):
                n = e["Package"] + "." + e["Test"]
                bad.append(n)
        bad = [b for b in bad if any(b.endswith(s.split("/")[-1]) or s.endswith(b.split(".")[-1]) for s in base)]
        m["result"] = "SURVIVED" if not bad else "survived, tests fail: " + " ".join(bad[:2])
        return m
    finally:
        assert d.startswith("/tmp/mut.")
        shutil.rmtree(d, ignore_errors=True)


def main():
    out, n, seed, only = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            m = json.loads(l)
            done.add((m["file"], m["start"], m["kind"], m["new"]))
    fs = [f for f in (only or FILES) if os.path.exists(R + f)]
    print("missing:", [f for f in (only or FILES) if f not in fs])
    ms = []
    for f in fs:
        o = subprocess.run(["go", "run", "./tools/mutate", R + f], cwd=V, env=dict(ENV, GOFLAGS="-mod=readonly"), capture_output=True, text=True).stdout
        l = [json.loads(x) for x in o.strip().split("\n") if x]
        random.Random(f"{seed}{f}").shuffle(l)
        ms += l[:n]
    ms = [m for m in ms if (m["file"], m["start"], m["kind"], m["new"]) not in done]
    random.Random(seed).shuffle(ms)
    print(len(ms), "mutants")
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "5"))) as ex, open(out, "a") as fo:
        for m in ex.map(one, ms):
            fo.write(json.dumps(m) + "\n")
            fo.flush()


main()
