"""edits the cart as the (first) script argument says: lines of '<script> <stage> <operation> ...', numbers and hex"""
import os
ME = os.path.basename(__file__).split(".")[0]

def ops(args, stage):
    with open(args.script_args[0]) as f:
        for line in f.read().split("\n"):
            t = line.split(" ")
            if t[:2] == [ME, stage]: yield t[2:]

def note(args, text):
    with open(args.script_args[1], "a") as f: f.write(ME + " " + text + "\n")

def apply(cart, ctxt, args, stage):
    from pico_defs import encode_p8str, decode_p8str
    note(args, "%s %d %d %s" % (stage, len(cart.code), len(cart.rom), args.script_args[2:]))
    for op, *t in ops(args, stage):
        if op == "rom":
            data = bytes.fromhex(t[1])
            cart.rom[int(t[0]):int(t[0]) + len(data)] = data
        elif op == "copy":
            a, b, n = map(int, t)
            cart.rom[a:a + n] = bytes(cart.rom[b:b + n])
        elif op == "fill":
            a, v, n = map(int, t)
            cart.rom[a:a + n] = bytes([v]) * n
        elif op == "append":
            cart.code += decode_p8str(bytes.fromhex(t[0]))
        elif op == "replace":
            cart.code = cart.code.replace(decode_p8str(bytes.fromhex(t[0])), decode_p8str(bytes.fromhex(t[1])))
        elif op == "set":
            ctxt.set_field(t[0], t[1])
        elif op == "get":
            note(args, "field " + str(ctxt.get_field(t[0], str)))
        elif op == "other":
            from pico_cart import read_cart
            other = read_cart(t[0])
            cart.rom[0:0x2000] = other.rom[0:0x2000]
        elif op == "write":
            from pico_cart import write_cart, CartFormat
            new = cart.copy()
            new.rom[0:0x2000] = bytearray(0x2000)
            write_cart(t[0], new, CartFormat(t[1]))
        else: raise Exception(op)

def preprocess_main(cart, args, ctxt, **_):
    apply(cart, ctxt, args, "pre")

def preprocess_syntax_main(root, on_error, args, **_):
    from pico_parse import NodeType
    names = [t[0] for t in ops(args, "syntax")]
    def visit(node):
        if node.type == NodeType.call and node.func.type == NodeType.var and node.func.name in names:
            on_error(ME + " says " + node.func.name, node)
    root.traverse_nodes(pre=visit, extra=True)

def postprocess_main(cart, args, ctxt, **_):
    apply(cart, ctxt, args, "post")
