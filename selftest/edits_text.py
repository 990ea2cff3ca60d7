"""The text of answers; requests that are not refused."""
from edits_fresh2 import F, P, src
EDITS = []
def e(name, kind, props, *eds, **kw):
    EDITS.append(dict(name="text-" + name, kind=kind, props=props, edits=list(eds), **kw))
def same(name, *eds): e(name, "same", [], *eds)
def bug(name, props, *eds): e(name, "bug", props.split(), *eds)
V = "internal/server/server.go"
S = "internal/collation/schema.go"
QC = "(s *Server) queryCollation"
CR = """			for _, c := range q.Criteria {
				w.Write(c.F)
				w.Write([]byte{'='})
				w.Write(c.V)
				w.Write([]byte{'\\n'})
			}
"""
VA = """			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String()))
				w.Write([]byte{'\\n'})
			}
"""
def body(new, *more): return ((V, CR + "\n" + VA, new),) + more
same("fprintf", *body("""			for _, c := range q.Criteria {
				fmt.Fprintf(w, "%s=%s\\n", c.F, c.V)
			}
			for _, f := range res.FieldMeasureValues {
				fmt.Fprintln(w, f)
			}
"""))
same("fprintf-all", *body("""			for i := range q.Criteria {
				fmt.Fprintf(w, "%s=%s\\n", string(q.Criteria[i].F), q.Criteria[i].V)
			}
			for i := range res.FieldMeasureValues {
				f := &res.FieldMeasureValues[i]
				fmt.Fprintf(w, "%s(%s)=%v\\n", f.M, f.F, f.V)
			}
"""))
same("iostring", *body("""			for _, c := range q.Criteria {
				io.WriteString(w, string(c.F)+"="+string(c.V)+"\\n")
			}
			for _, f := range res.FieldMeasureValues {
				io.WriteString(w, f.String()+"\\n")
			}
"""))
same("buffer", *body("""			var b bytes.Buffer
			for _, c := range q.Criteria {
				b.Write(c.F)
				b.WriteByte('=')
				b.Write(c.V)
				b.WriteByte('\\n')
			}
			for _, f := range res.FieldMeasureValues {
				b.WriteString(f.String())
				b.WriteRune('\\n')
			}
			b.WriteTo(w)
"""))
same("builder", *body("""			var b strings.Builder
			for _, c := range q.Criteria {
				b.WriteString(string(c.F))
				b.WriteString("=")
				b.WriteString(string(c.V))
				b.WriteString("\\n")
			}
			for _, f := range res.FieldMeasureValues {
				fmt.Fprintf(&b, "%s\\n", f)
			}
			io.WriteString(w, b.String())
"""))
same("bufio", *body("""			b := bufio.NewWriter(w)
			defer b.Flush()
			for _, c := range q.Criteria {
				b.Write(c.F)
				b.WriteByte('=')
				b.Write(c.V)
				b.WriteByte('\\n')
			}
			for _, f := range res.FieldMeasureValues {
				b.WriteString(f.String())
				b.WriteByte('\\n')
			}
"""))
same("append", *body("""			var b []byte
			for _, c := range q.Criteria {
				b = append(b, c.F...)
				b = append(b, '=')
				b = append(b, c.V...)
				b = append(b, '\\n')
			}
			for _, f := range res.FieldMeasureValues {
				b = append(b, f.String()...)
				b = append(b, "\\n"...)
			}
			w.Write(b)
"""))
same("concat", *body("""			out := ""
			for _, c := range q.Criteria {
				out += string(c.F) + "=" + string(c.V) + "\\n"
			}
			for _, f := range res.FieldMeasureValues {
				out += fmt.Sprintln(f)
			}
			w.Write([]byte(out))
"""))
same("line", *body("""			for _, c := range q.Criteria {
				line := append([]byte(nil), c.F...)
				line = append(line, '=')
				line = append(line, c.V...)
				w.Write(append(line, '\\n'))
			}
			for _, f := range res.FieldMeasureValues {
				w.Write([]byte(f.String() + "\\n"))
			}
"""))
same("helper", *body("""			writeResult(w, q, res)
""", (V, "func (s *Server) ServeHTTP(", """func writeResult(w io.Writer, q collation.Query, res collation.Result) {
	eq, nl := []byte("="), []byte("\\n")
	for _, c := range q.Criteria {
		w.Write(c.F)
		w.Write(eq)
		w.Write(c.V)
		w.Write(nl)
	}
	for _, f := range res.FieldMeasureValues {
		writeLine(w, f.String())
	}
}

func writeLine(w io.Writer, s string) {
	w.Write([]byte(s))
	w.Write([]byte{'\\n'})
}

func (s *Server) ServeHTTP(""")))
same("stringer", (V, CR, """			for _, c := range q.Criteria {
				fmt.Fprintln(w, c)
			}
"""), (S, "func (f FMV) String() string {", """func (f FV) String() string {
	return string(f.F) + "=" + string(f.V)
}

func (f FMV) String() string {"""))
same("label", F(S, "(f FMV) String() string", """func (f FMV) String() string {
	return string(f.M) + "(" + string(f.F) + ")=" + fmt.Sprint(f.V)
}
"""))
same("index", *body("""			for i := 0; i < len(q.Criteria); i++ {
				c := q.Criteria[i]
				w.Write(c.F)
				w.Write([]byte("="))
				w.Write(c.V)
				w.Write([]byte("\\n"))
			}
			for i := 0; i < len(res.FieldMeasureValues); i++ {
				w.Write([]byte(res.FieldMeasureValues[i].String()))
				w.Write([]byte("\\n"))
			}
"""))
bug("swap", "C45", (V, "w.Write(c.F)\n				w.Write([]byte{'='})\n				w.Write(c.V)", "w.Write(c.V)\n				w.Write([]byte{'='})\n				w.Write(c.F)"))
bug("no-eq", "C45", (V, "				w.Write([]byte{'='})\n", ""))
bug("colon", "C45", (V, "w.Write([]byte{'='})", "w.Write([]byte{':'})"))
bug("no-nl", "C45", (V, VA, VA.replace("				w.Write([]byte{'\\n'})\n", "")))
bug("crlf", "C45", (V, VA, VA.replace("{'\\n'}", "{'\\r', '\\n'}")))
bug("after", "C45", *body(VA + CR))
bug("quote", "C45", *body("""			for _, c := range q.Criteria {
				fmt.Fprintf(w, "%s=%q\\n", c.F, c.V)
			}
""" + VA))
bug("percent-v", "C45", *body("""			for _, c := range q.Criteria {
				fmt.Fprintf(w, "%s=%v\\n", c.F, c.V)
			}
""" + VA))
bug("format-injection", "C45", (V, VA, VA.replace("w.Write([]byte(f.String()))", "fmt.Fprintf(w, f.String())")))
bug("flush", "C45", *body("""			b := bufio.NewWriter(w)
			for _, c := range q.Criteria {
				b.Write(c.F)
				b.WriteByte('=')
				b.Write(c.V)
				b.WriteByte('\\n')
			}
			b.Flush()
			for _, f := range res.FieldMeasureValues {
				b.WriteString(f.String())
				b.WriteByte('\\n')
			}
"""))
bug("once", "C45", (V, CR, CR.replace("range q.Criteria {", "range q.Criteria[:len(q.Criteria)-1] {")))
bug("empty", "C45", (V, "				w.Write(c.F)\n", "				if len(c.V) == 0 {\n					continue\n				}\n				w.Write(c.F)\n"))
bug("label-order", "C45", (S, '"%s(%s)=%v", f.M, f.F, f.V', '"%s(%s)=%v", f.F, f.M, f.V'))
bug("label-precision", "C45", (S, '"%s(%s)=%v", f.M', '"%s(%s)=%.6v", f.M'))
bug("header-line", "C45", (V, CR, "			fmt.Fprintf(w, \"# %d values\\n\", len(res.FieldMeasureValues))\n" + CR))
bug("reset", "C45", *body("""			var b bytes.Buffer
			for _, c := range q.Criteria {
				fmt.Fprintf(&b, "%s=%s\\n", c.F, c.V)
			}
			b.Reset()
			for _, f := range res.FieldMeasureValues {
				b.WriteString(f.String())
				b.WriteByte('\\n')
			}
			b.WriteTo(w)
"""))
