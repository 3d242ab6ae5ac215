#!/usr/bin/env python3
"""fixes.py check [COMMIT...]  reverts each repair in a scratch copy and runs the check of its property
   fixes.py record             writes the "fixed:" lines of known_findings.txt"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lab import Lab, run, V, ENV
# repair (start of its message after "fix: ") -> property
MAP = """P11 bpe merges equal-rank|bpe dropout re-queues|bpe tokenizes with its cache|bpe applies the continuing|BPE gives an error
P17 bpe training keeps the special|bpe training limits|bpe training adds|bpe training merges|bpe reports the pair|bpe training breaks|bpe training keeps the pair|bpe training keeps one id
P12 wordpiece offsets are
P31 wordlevel names|wordlevel keeps
P32 loading a pretrained|the pretrained
P20 wordpiece takes the continuing|bert normalization strips accents by default|replacing a regex in|a configuration with an Nmt|the added tokens of a conf|splitting on a string in|BPEDecoder and|a Metaspace decoder
P13 unigram steps over|unigram uses|unigram scores|unigram falls back
P21 BPE gives offsets|BPE without an|splitting next to|splitting by script|WordPiece gives
P19 unigram saves|bpe reads merges
P04 added tokens are found|added tokens match|added tokens strip|single-word|an added token strips
P24 getting the voc|changing the map
P15 decoding a batch|stripping a token|a token that only looks|default decoders|byte-level decoding
P01 normalizing a pre-tok|a split that the|Encode returns an error
P03 char offsets reach|converting ranges
P22 an encoding made|the tokens of a word|looking up a token|the sequence ids
P05 truncating an enc|truncating the longest|truncation gives no more
P06 padding to the left, and|merging enc|padding to the left moves|padding an encoding
P07 roberta processing|bert and roberta|a sequence of processors adds|validating a|byte-level processing|a sequence of processors keeps
P30 training without|training reads every|Train returns
P08 transforming|ranges and slices
P33 inverting a pattern|patterns of characters
P09 changing the case|unicode normalization composes|prepending|bert normalization replaces|bert normalization strips the accents of|a normalizer made|unicode normalization aligns|bert normalization recog
P26 a precompiled|precompiled norm|NormalizeString
P10 metaspace splits|the whitespace pre
P27 a local file|a file can be|a file is requested|concurrent first
P35 ConfigFromFile closes|Train ends its workers""".split("\n")


def commits():
    out = []
    for l in run("git log --reverse --format=%h@%s ee9eace..", "/repo").stdout.strip().split("\n"):
        h, s = l.split("@", 1)
        if not s.startswith("fix: "):
            continue
        s = s[5:]
        ps = [m.split(" ", 1)[0] for m in MAP for x in m.split(" ", 1)[1].split("|") if s.startswith(x)]
        assert len(ps) == 1, (s, ps)
        out.append((h, ps[0], s))
    return out


def check(which):
    for h, p, s in commits():
        if which and h not in which:
            continue
        lab = Lab()
        try:
            r = run(f"git -c user.name=x -c user.email=x@x revert -n {h}", lab.repo)
            if r.returncode:
                print(h, p, "CONFLICT", s, flush=True)
                continue
            if run("go build ./...", lab.repo).returncode:
                print(h, p, "NO BUILD", s, flush=True)
                continue
            v = lab.verif()
            r = run(["bash", "check.sh", p], v, env=dict(ENV, VERIF_SEED="1", VERIF_TIER="quick"))
            k = [l.strip()[:90] for l in r.stdout.split("\n") if l.startswith("  key=")][:1]
            print(h, p, "caught" if r.returncode == 1 else "MISSED %d" % r.returncode, s, k, flush=True)
        finally:
            lab.close()


def record():
    f = V + "/known_findings.txt"
    keep = [l for l in open(f).read().split("\n") if l and not l.startswith("fixed:")]
    keep += [f"fixed: property={p} {h} {s}" for h, p, s in commits()]
    open(f, "w").write("\n".join(keep) + "\n")


if __name__ == "__main__":
    record() if sys.argv[1] == "record" else check(sys.argv[2:])
