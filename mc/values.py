"""Unusual values shared by the checks: names of entries, pairs of names that must stay apart, contents."""

LONG = "l" * 120

NAMES = ["a", "A", " ", " a", "a ", "a  b", "a b", "a\tb", "a\n", "n\nl", "e\u0301", "\u00e9", "\u212b", "\u00c5", "\ufb01", "\u00df",
         "SS", "\u0130", "\uff41", "a\u200b", "\U0001f600", "\u00a0a", "~", "~x", "_u", "__u__", "__init__.py", ".h", "..h", "...", "....", "a.",
         "a..", "-d", "--", "-", "a.b", "a:b", "#a", "a#", "%2e", "%2e%2e", "%2F", "a+b", "a%20b", "@s", "@search", "@", "0", "00", "1e3",
         "None", "a\\b", "\\", "a=b", "(a)", "a'b", 'a"b', "{a}", "a,b", "a;b", "a&b", "a|b", "a>b", "!", "^a", "a`b", "con", "nul.txt",
         "a.tmp", "a.md", "a.MD", ".git", ".env", "Thumbs.db", "a~", "a.bak", ".a.swp", LONG]
GLOBBY = ["*", "?", "[a]", "a*", "$V", "$", "${V}", "$HOME"]  # not through the shell: known findings on quoting

# names that a careless normalisation would merge
PAIRS = [("a", "A"), ("a", "a "), ("a", " a"), (" ", "_u"), ("a  b", "a b"), ("a\tb", "a b"), ("a\n", "a"), ("e\u0301", "\u00e9"),
         ("\u212b", "\u00c5"), ("\ufb01", "fi"), ("\u00df", "SS"), ("\u00df", "ss"), ("\u0130", "i"), ("\uff41", "a"), ("a\u200b", "a"),
         ("\u00a0a", "a"), ("~", "~x"), ("_u", "u"), ("__u__", "u"), (".h", "h"), ("..h", ".h"), ("...", "...."), ("a.", "a"), ("a..", "a."),
         ("-d", "d"), ("--", "-"), ("a.b", "a"), ("a:b", "a"), ("#a", "a"), ("a#", "a"), ("%2e", "a"), ("%2F", "a"), ("a+b", "a b"),
         ("a%20b", "a b"), ("@s", "s"), ("@search", "search"), ("0", "00"), ("a\\b", "b"), ("a=b", "b"), ("(a)", "a"), ("a'b", "ab"),
         ('a"b', "ab"), ("{a}", "a"), ("a;b", "a"), ("a&b", "a"), ("a.md", "a.MD"), ("a.tmp", "a"), ("a~", "a"), (LONG, LONG + "x"),
         ("a", "ab"), ("a", "aa"), ("\U0001f600", "\U0001f601"), ("None", "none"), ("*", "a"), ("?", "a"), ("[a]", "a"), ("$V", "V"),
         ("con", "CON"), ("^a", "a"), ("!", "a")]

TEXTS = ["", " ", "\n", "\n\n", "\t", "a", "a\n", "a\nb", "a\nb\n", "\na", " a ", "a \n", "a\n\n\n", "a\n \nb", "a\r\nb\r\n", "\ufeffa",
         "\U0001f600\n", "\u00e9\n", "e\u0301\n", "\u2028", "a\u2028b", "a\x0bb", "a\x0cb", "a\x85b", "a\x1cb", "\x00", "a\x00b", "\x1b[0m", "\x7f",
         "\u00df", "\u0130", "\u017f", "\u212a", "#c", "-n", "-n a", "%s", "%", "$V", "~", "\\n", "\\", "\\\\", "'", '"', "a'b", "*", "?", "| a", "> a",
         "&&", ";", "None", "null", "0", "{}", "{a}", "[]", "a:b", "/a", "a\tb", "a  b", "\u00a0", "\u200b", "x" * 5000,
         "".join("l%d\n" % i for i in range(1500)), "z" * 70000 + "\n"]


def shellable(name):
    """May a shell command name this entry, quoted, without meeting the recorded findings on quoting (commands end at the line end, even in quotes)?"""
    return name and not any(c in name for c in "*?[$\n\r") and not name.startswith("-")
