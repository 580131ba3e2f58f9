package sq

// Texts are texts that another reading would take for something else: times,
// numbers, truth values, JSON, placeholders. A text column gives each back as
// it was.
var Texts = []string{
	"2024-02-03T04:05:06Z", "2024-02-03T04:05:06+07:00", "2024-02-03T04:05:06.789Z", "2024-02-03 04:05:06", "2024-02-03", "04:05:06",
	"2006-01-02 15:04:05.999999999-07:00", "Mon, 02 Jan 2006 15:04:05 MST", "0001-01-01T00:00:00Z", "0000-00-00", "1700000000", "now",
	"007", "1e3", "1e400", "0x1F", "+1", "-0", "3.0", ".5", "5.", "1_000", "1,000", "NaN", "Inf", "-Inf", "Infinity", "9223372036854775808", "18446744073709551616", "00", " 12", "12 ",
	"true", "false", "TRUE", "t", "yes", "nil", "<nil>", "null", "NULL", "undefined", "None",
	"{}", "[]", "[1,2]", `{"a":null}`, `"text"`, `""`, "''", "'", "\\'", "\\", "\\\\", "\\n", "\\u0041", "%s", "%d%%", "%!s(int=1)",
	"?", "??", "$1", "@name", "@p1", ":id", "#{x}", "${x}", "{{.}}", "`", "``", "--", "/* */", ";", "a;b", "a=b&c=d", "https://e.com/?q=1&r=<2>",
	" ", "  both  ", "\t", "\n", "\r\n", "a\r\nb", "\u00a0", "\ufeff", "\u2028", "\u200b", "e\u0301", "é", "\u202eabc", "👨‍👩‍👧", "ﬁ", "İı", "ß",
	"AAECAw==", "6ba7b810-9dad-11d1-80b4-00c04fd430c8", "d41d8cd98f00b204e9800998ecf8427e", "\x01\x02", "\x7f",
	"0", "1", "-1", "id", "name", "select", "case when", "then", "end", "where 1=1", "is null", "x' or '1'='1",
}
