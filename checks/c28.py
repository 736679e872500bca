"""
C28 Tokenising keeps every word once, in order, regardless of case and quotes.
"""

import itertools
import re
import unicodedata

from hyperreal import utilities

TECHNIQUE = "exhaustive enumeration of all strings up to a length over several alphabets and of all sequences of words and social media fragments, on the real tokenisers"
NOTE = (
    "Every string is tokenised by the real functions and compared with a character scanner that knows only letters, "
    "white space, quotes and link prefixes, and with the tokens of its parts."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "a text of 400000 characters, words of up to 100000; all strings of up to 5 characters over three alphabets of 11-13 characters, every code point below U+3100 in 5 surroundings, "
    "all sequences of up to 4 of 16 words and social media fragments with each of 4 separators",
    "thorough": "strings of up to 6 characters, every assigned code point, sequences of up to 5 fragments",
}
ASSUMPTIONS = ["single quotes at the edge of a word only separate words (as documented next to the tokeniser)"]

ALPHABETS = [
    "aBz19 \n'’\".-",
    "aé\u0301Σ中ж_ \t‘“”'",
    "ht:/#@ .x\u00a0\u3000S\n",
]

# Unicode counts the narrow no-break space as part of words.
NARROW = "\u202f"

STRAIGHT = {"‘": "'", "’": "'", "“": '"', "”": '"'}


def jobs(tier, seed):
    deep = tier == "thorough"
    n = 8 if not deep else 32
    out = [("strings", a, i, n, deep) for a in range(len(ALPHABETS)) for i in range(n)]
    out += [("codepoints", i, n, deep) for i in range(n)]
    out += [("wide",)]
    out += [("fragments", i, n, deep) for i in range(n)]
    return out


def plain(text):
    return "".join(STRAIGHT.get(c, c) for c in text).lower()


def residue(text):
    """The characters that may not be lost."""
    return [c for c in text if not c.isspace() and c != "'"]


WORD = re.compile("[a-z0-9]+(?:'[a-z]+)*")


def judge(R, text, tokens, source):
    """source: what has to be in the tokens, plain() already."""
    if any(not isinstance(t, str) or not t.strip() for t in tokens):
        R.violation("a token is blank or not text", (text, tokens))
    got, want = residue("".join(tokens)), residue(source)
    if got != want:
        R.violation("characters of the text are lost, duplicated or reordered", (text, tokens))


def words_of(source):
    """(runs of letters and digits between anything else, and words with an apostrophe inside)"""
    return re.findall("[a-z0-9]+", source)


def whole_words(R, text, tokens, source):
    at = 0
    joined = [t for t in tokens]
    for word in words_of(source):
        while at < len(joined) and word not in joined[at]:
            at += 1
        if at == len(joined):
            R.violation("a word is split", (text, tokens, word))
            return
        joined[at] = joined[at].split(word, 1)[1]
    for word in re.findall("(?<![a-z0-9'_.:])[a-z]+'[a-z]+(?![a-z0-9'_.:])", source):
        if not any(word in t for t in tokens):
            R.violation("an apostrophe inside a word splits it", (text, tokens, word))
    if any(re.search("[a-z0-9]\\s+[a-z0-9]", t.replace(NARROW, "")) for t in tokens):
        R.violation("two words are joined in one token", (text, tokens))


def strip_social(source):
    """source without links, mentions and hashtags; a plain scanner."""
    out, i = [], 0
    while i < len(source):
        if source[i] in "#@" or source.startswith(("http://", "https://"), i):
            while i < len(source) and not source[i].isspace():
                i += 1
        else:
            out.append(source[i])
            i += 1
    return "".join(out)


def check_one(R, text):
    R.run()
    R.step()
    source = plain(text)
    tokens = utilities.tokens(text)
    judge(R, text, tokens, source)
    whole_words(R, text, tokens, source)
    if utilities.tokens(source) != tokens:
        R.violation("tokens depend on the letter case or the kind of quotes", (text, tokens))
    bare = strip_social(source)
    social = utilities.social_media_tokens(text)
    if social != utilities.tokens(bare):
        R.violation("social media text is not tokenised as if links, mentions and hashtags were absent", (text, social))
    judge(R, text, social, bare)
    if utilities.social_media_tokens(source) != social:
        R.violation("social media tokens depend on the letter case or the kind of quotes", (text, social))
    return tokens


def job_strings(R, which, part, parts, deep):
    alphabet = ALPHABETS[which]
    n = 0
    for length in range(7 if deep else 6):
        for text in itertools.product(alphabet, repeat=length):
            n += 1
            if n % parts != part:
                continue
            text = "".join(text)
            tokens = check_one(R, text)
            # White space separates: the parts around it are tokenised on their own.
            # (Unless there is an accent with nothing before it to go on.)
            for i, c in enumerate(text):
                if c in " \n" and not re.search("(^|\\s)\u0301", text):
                    if utilities.tokens(text[:i]) + utilities.tokens(text[i + 1 :]) != tokens:
                        R.violation("words separated by white space are not tokenised on their own", (text, tokens))
                    break
    R.state(("strings", which, part))


def job_codepoints(R, part, parts, deep):
    for cp in range(part, 0x110000 if deep else 0x3100, parts):
        c = chr(cp)
        if unicodedata.category(c) in ("Cs", "Cn"):
            continue
        for text in (c, f"a{c}b", f"Word {c}{c} word", f"it's {c}", f"{c}1 http://x{c} y"):
            check_one(R, text)
        if c.isspace() and c != NARROW:
            R.equal(utilities.tokens(f"one{c}Two"), ["one", "two"], "white space does not separate words", hex(cp))
        R.state(("cp", cp // 256))


FRAGMENTS = [
    "one", "Two", "don't", "I’m", "3.5", "(x)", "“hi”", "http://t.co/a'b", "HTTPS://T.co", "@Some_1", "#Tag's", "#", "@", "a#b", "é", "http:/x",
]
FRAGMENT_TOKENS = [
    ["one"], ["two"], ["don't"], ["i'm"], ["3.5"], ["(", "x", ")"], ['"', "hi", '"'], [], [], [], [], [], [], ["a"], ["é"], None,
]


def job_fragments(R, part, parts, deep):
    n = 0
    seps = [" ", "\n", "  ", "\u00a0"]
    for length in range(6 if deep else 5):
        for combo in itertools.product(range(len(FRAGMENTS)), repeat=length):
            n += 1
            if n % parts != part:
                continue
            if length == 5 and n % 4:
                continue
            for sep in seps if length < 4 else [seps[n // parts % 4]]:
                text = sep.join(FRAGMENTS[i] for i in combo)
                R.run()
                R.step()
                want = []
                for i in combo:
                    t = FRAGMENT_TOKENS[i]
                    want += utilities.tokens(FRAGMENTS[i]) if t is None else t
                R.equal(utilities.social_media_tokens(text), want, "social media text has other tokens", text)
                R.equal(
                    utilities.tokens(text),
                    [t for i in combo for t in utilities.tokens(FRAGMENTS[i])],
                    "words separated by white space are not tokenised on their own",
                    text,
                )
    R.state(("fragments", part))


def job_wide(R):
    """Long texts and long words are no different."""
    parts = [f"{f} w{i} don't{i % 7} {chr(0x391 + i % 17)}" for i in range(3000) for f in FRAGMENTS[:6]]
    text, want = " ".join(parts), [t for p in parts for t in utilities.tokens(p)]
    R.state("text")
    R.check(utilities.tokens(text) == want == utilities.tokens("\n".join(parts)), "words of a long text are not tokenised on their own")
    social = [x for p in parts for x in (p, "#Tag", "http://t.co/x", "@me")]
    R.check(utilities.social_media_tokens(" ".join(social)) == want, "a long social media text has other tokens")
    R.run(3)
    R.step(3)
    for n in (10, 100, 255, 256, 1000, 65536, 100000):
        for word in ("a" * n, "9" * n, "é" * n, "Ab1" * (n // 3), "it's" + "x" * n, "x" * n + "'s"):
            R.run()
            R.step()
            R.state((word[:5], n))
            R.check(utilities.tokens(f"one {word} two") == ["one", word.lower(), "two"], "a long word is not one token", word[:9])
        for gap in (" ", "\n\t", ".", "' "):
            R.run()
            got = [t for t in utilities.tokens("one" + gap * n + "two") if t.strip(".")]
            R.equal(got, ["one", "two"], "words far apart are not tokenised on their own", (gap, n))
