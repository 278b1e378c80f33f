"""a small line-based language with globals, members and scoped locals (the harness can run it)"""
from pico_process import SubLanguageBase, is_identifier, Local, Scope
from collections import Counter

# @let NAME ATOMS / NAME <- ATOMS / @ret ATOMS / @print ATOMS / @get OBJ .MEMBER / @set OBJ .MEMBER ATOM / @do / @end / FUNC ATOMS
# atoms: numbers, identifiers, .members, 'strings

class Evally(SubLanguageBase):
    def __init__(self, str, args, on_error, **_):
        self.args = args
        self.tokens = [line.split() for line in str.split("\n")] # (just ascii in the programs)
        if "strict" in args.split():
            for i, line in enumerate(self.tokens):
                if not line: on_error("empty line %d" % i)
        # resolve
        self.globals, self.members, self.locals = Counter(), Counter(), Counter()
        self.defined, self.used = [], []
        self.vars = {} # (line, token) -> Local
        root = Scope()
        stack, scope = [], root
        def use(i, j, target=False):
            nonlocal scope
            name = self.tokens[i][j]
            var = scope.find(name)
            if var:
                self.vars[i, j] = var
                self.locals[var] += 1
                for s in scope.chain():
                    s.used_locals.add(var)
                    if s == var.scope: break
            else:
                self.globals[name] += 1
                for s in scope.chain(): s.used_globals.add(name)
                (self.defined if target else self.used).append(name)
        def atoms(i, at):
            for j in range(at, len(self.tokens[i])):
                t = self.tokens[i][j]
                if is_identifier(t): use(i, j)
                elif t.startswith(".") and is_identifier(t[1:]): self.members[t[1:]] += 1
        for i, line in enumerate(self.tokens):
            if not line: continue
            if line[0] == "@do": stack.append(scope)
            elif line[0] == "@end": scope = stack.pop()
            elif line[0] == "@let":
                atoms(i, 2)
                scope = Scope(scope)
                var = Local(line[1], scope)
                scope.add(var)
                use(i, 1, True)
            elif len(line) > 1 and line[1] == "<-":
                atoms(i, 2)
                use(i, 0, True)
            else:
                atoms(i, 0)

    def get_defined_globals(self, **_):
        return self.defined
    def get_used_globals(self, **_):
        return self.used
    def lint(self, builtins, globals, on_error, **_):
        for name in self.used:
            if name not in builtins and name not in globals: on_error("Identifier '%s' not found" % name)

    def get_global_usages(self, **_):
        return self.globals
    def get_member_usages(self, **_):
        return self.members
    def get_local_usages(self, **_):
        return self.locals

    def rename(self, globals, members, locals, **_):
        for i, line in enumerate(self.tokens):
            for j, t in enumerate(line):
                if (i, j) in self.vars: line[j] = locals[self.vars[i, j]]
                elif is_identifier(t): line[j] = globals.get(t, t)
                elif t.startswith("."): line[j] = "." + members.get(t[1:], t[1:])

    def minify(self, **_):
        return "\n".join(" ".join(line) for line in self.tokens if line)

class Chars(Evally):
    def get_unminified_chars(self, **_):
        for line in self.tokens:
            for t in line:
                if not is_identifier(t) and not t.startswith("."): yield from t

def sublanguage_main(lang, **_):
    return {"evally": Evally, "evally2": Chars, "raw": SubLanguageBase}.get(lang)
