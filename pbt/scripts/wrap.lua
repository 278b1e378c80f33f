-- as wrap.py
local CompilerBase = python.import("pico_process").CompilerBase
local pico_output = python.import("pico_output")
local module = {}
Wrap = python.class(CompilerBase)

function codes_of(ctxt)
    return ctxt.get_field("wrap_codes", function() return {} end)
end

function Wrap:__init(opts)
    self.ctxt = opts.ctxt
    self.src = opts.src
    self.args = split(opts.args, " ", false)
    local ids = self.ctxt.get_field("wrap_ids", function() return {} end)
    self.id = "w"..#ids
    add(ids, self.id)
end

function has(self, arg)
    return count(self.args, arg) > 0
end

function Wrap:get_dynamic_includes()
    local kind = has(self, "+stmt") and "stmt" or has(self, "+safe") and "safe" or "expr"
    return python.list{"wrap."..kind.." "..self.id}
end

function Wrap:compile(root)
    local code = pico_output.output_node(python.args{root, self.ctxt, minify=has(self, "+minify") or has(self, "+stmt")})
    local codes = codes_of(self.ctxt)
    if (has(self, "+stmt")) codes[self.id] = "do "..code.."\nend" return
    for arg in all(self.args) do
        if sub(arg, 1, 5) == "+rom=" and #code <= 0x600 then
            local at = tonum(sub(arg, 6))
            rommemcpy(self.src.cart.rom, at, shrinko.to_memory(code), 0, #code)
            codes[self.id] = "chr(peek("..at..", "..#code.."))"
            return
        end
    end
    codes[self.id] = pico_output.format_string_literal(code)
end

function module.include_main(name)
    if (name == "wrap.stmt") return function(opts) return "--[[$placeholder-stmt::wrap.code "..opts.args.."]] do end" end
    if (name == "wrap.expr") return function(opts) return 'execute_raw(--[[$placeholder-expr::wrap.code '..opts.args..']]"", _ENV)' end
    if (name == "wrap.safe") return function(opts) return 'execute_raw(--[[$placeholder-expr::wrap.code '..opts.args..']]"", --[[$force-safe]] _ENV)' end
    if (name == "wrap.code") return function(opts) return codes_of(opts.ctxt)[opts.args] end
    if name == "lib" then return function(opts)
        local s = ""
        for i=1,#opts.args,2 do s ..= chr(tonum("0x"..sub(opts.args, i, i+1))) end
        return s
    end end
end

function module.compiler_main(name)
    if (name == "wrap") return Wrap
end

return module
