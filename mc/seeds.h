/* seed documents shared by explorers: together they contain every construct */
static const char *seeds[] = {
	"<a/>",
	"<a k='v' j=\"w\">t</a>",
	"<?xml version='1.0'?><r><a/>t<b k=\"1\"> u </b><!-- c --><?p q r?><![CDATA[<x>]]></r>",
	"<?xml version=\"1.0\" encoding='utf-8' standalone='yes' ?>\n<!-- c -->\n<?pi a b?>\n<r>\n <c1>x</c1>\n <c2/>\n</r>\n<!-- end -->\n",
	"<r xml:space='preserve'> <a> </a> <b xml:space='default'> <c/> </b> </r>",
	"<!DOCTYPE r SYSTEM 'r.dtd'><r><a><b><c d='e'/></b></a></r>",
	"\xEF\xBB\xBF<r>\xc3\xa1 &lt;&amp;&gt;</r >",
	"<x:r xmlns:x='u' x:k = 'v'\n><x:c/>\n</x:r>\n",
};
#define NSEEDS ((int) (sizeof seeds / sizeof *seeds))
