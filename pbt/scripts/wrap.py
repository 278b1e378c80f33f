"""a compiler that merely wraps the code: in a string, in rom, or as statements"""
from pico_process import CompilerBase

class Wrap(CompilerBase):
    def __init__(self, ctxt, src, args, **_):
        self.ctxt, self.src = ctxt, src
        self.args = args.split()
        ids = ctxt.get_field("wrap_ids", list)
        self.id = "w%d" % len(ids)
        ids.append(self.id)

    def get_dynamic_includes(self, **_):
        kind = "stmt" if "+stmt" in self.args else "safe" if "+safe" in self.args else "expr"
        return ["wrap.%s %s" % (kind, self.id)]

    def compile(self, root, **_):
        from pico_output import output_node, format_string_literal
        from pico_defs import encode_p8str
        code = output_node(root, self.ctxt, minify="+minify" in self.args or "+stmt" in self.args) # (without comments, whose hints were already handled)
        codes = self.ctxt.get_field("wrap_codes", dict)
        if "+stmt" in self.args:
            codes[self.id] = "do " + code + "\nend"
            return
        for arg in self.args:
            if arg.startswith("+rom=") and len(code) <= 0x600:
                at, data = int(arg[5:]), encode_p8str(code)
                self.src.cart.rom[at:at + len(data)] = data
                codes[self.id] = f"chr(peek({at}, {len(data)}))"
                return
        codes[self.id] = format_string_literal(code)

def get_stmt(args, **_):
    return "--[[$placeholder-stmt::wrap.code " + args + "]] do end"

def get_expr(args, **_):
    return f'execute_raw(--[[$placeholder-expr::wrap.code {args}]]"", _ENV)'

def get_safe(args, **_):
    return f'execute_raw(--[[$placeholder-expr::wrap.code {args}]]"", --[[$force-safe]] _ENV)'

def get_code(args, ctxt, **_):
    return ctxt.get_field("wrap_codes", dict).get(args)

def get_lib(args, **_):
    return bytes.fromhex(args).decode("latin-1")

def include_main(name, **_):
    return {"wrap.stmt": get_stmt, "wrap.expr": get_expr, "wrap.safe": get_safe, "wrap.code": get_code, "lib": get_lib}.get(name)

def compiler_main(name, **_):
    if name == "wrap":
        return Wrap
