"""Document handles (C23)."""
from vcgen import Contract

CONTRACTS = []


def F(*a, **k):
    CONTRACTS.append(Contract(*a, **k))


H = "hext::Html::"
A = ["alive"]
OK = "handle_ok($this.outp, $alive)"
OTHER = "handle_ok($other.outp, $alive)"
NEWDOC = ["$ret.outp is Out", "!$alive.contains($ret.outp->Out_0)", "$out.alive =~= $alive.insert($ret.outp->Out_0)"]
F(H + "Html", ["buffer", "size"], sig=r"\(const char \*, (std::)?size_t\)", ghost=A, props=["C23"], variant="size", out={"alive": None},
  requires=["piece_ok($buffer, $size)"], ensures=NEWDOC + ["out_source($ret.outp) =~= piece($buffer, $size)", "html_root($ret.outp) == doc_of(piece($buffer, $size))"])
F(H + "Html", ["buffer"], sig=r"\(const char \*\)", ghost=A, props=["C23"], variant="cstr", out={"alive": None},
  requires=["!$buffer.null"], ensures=NEWDOC + ["out_source($ret.outp) =~= cstr($buffer)", "html_root($ret.outp) == doc_of(cstr($buffer))"])
F(H + "Html", ["other"], sig=r"\((hext::)?Html &&\)", ghost=A, props=["C23"], variant="move", requires=[OTHER],
  ret="HtmlV{outp: $other.outp}", out={"other": "HtmlV{outp: OutP::Null}"})
F(H + "operator=", ["other"], sig=r"\((hext::)?Html &&\)", ghost=A, props=["C23"], ret="*this", out={"this": None, "other": None, "alive": None},
  requires=[OK, OTHER, "distinct($this.outp, $other.outp)"],
  ensures=["moved_to($this.outp, $other.outp, $alive, $out.this.outp, $out.other.outp, $out.alive)"])
F(H + "operator=", ["other"], sig=r"\((hext::)?Html &&\)", ghost=A, props=["C23"], ret="*this", out={"this": None, "alive": None}, alias="other", variant="self",
  requires=[OK], ensures=["moved_to_self($this.outp, $alive, $out.this.outp, $out.alive)"])
F(H + "~Html", ghost=A, props=["C23"], out={"this": None, "alive": "minus($alive, $this.outp)"}, requires=[OK])
F(H + "root", ghost=A, props=["C23"], ret="html_root($this.outp)", requires=[OK])
