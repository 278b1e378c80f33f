-- as hooks.py
local module = {}
local ME = "@ME@" -- (the check replaces this)

local function ops(args, stage)
    local out = {}
    local argv = python.table(args.script_args)
    local fh = io.open(argv[1], "r")
    for line in all(split(fh:read("*a"), "\n", false)) do
        local t = split(line, " ", false)
        if t[1] == ME and t[2] == stage then
            deli(t, 1) deli(t, 1)
            add(out, t)
        end
    end
    fh:close()
    return out
end

local function note(args, text)
    local argv = python.table(args.script_args)
    local fh = io.open(argv[2], "a")
    fh:write(ME.." "..text.."\n")
    fh:close()
end

local function hex(s)
    local r = ""
    for i=1,#s,2 do r ..= chr(tonum("0x"..sub(s, i, i+1))) end
    return r
end

local function plain_replace(s, a, b)
    local out, at = "", 1
    while true do
        local i = string.find(s, a, at, true)
        if not i then return out..string.sub(s, at) end
        out ..= string.sub(s, at, i-1)..b
        at = i + #a
    end
end

local function apply(cart, ctxt, args, stage)
    local rest = ""
    for i, a in ipairs(python.table(args.script_args)) do
        if (i > 2) rest ..= (i > 3 and ", " or "").."'"..a.."'"
    end
    note(args, stage.." "..tostr(#cart.code).." "..tostr(python.builtins.len(cart.rom)).." ["..rest.."]")
    for t in all(ops(args, stage)) do
        local op = t[1]
        if op == "rom" then
            local data, at = hex(t[3]), tonum(t[2])
            if #data < 20 then
                for i=1,#data do rompoke(cart.rom, at+i-1, ord(data, i)) end
            else
                rommemcpy(cart.rom, at, shrinko.to_memory(data), 0, #data)
            end
        elseif op == "copy" then
            rommemcpy(cart.rom, tonum(t[2]), cart.rom, tonum(t[3]), tonum(t[4]))
        elseif op == "fill" then
            rommemset(cart.rom, tonum(t[2]), tonum(t[3]), tonum(t[4]))
        elseif op == "append" then
            cart.code ..= hex(t[2])
        elseif op == "replace" then
            cart.code = plain_replace(cart.code, hex(t[2]), hex(t[3]))
        elseif op == "set" then
            ctxt.set_field(t[2], t[3])
        elseif op == "get" then
            note(args, "field "..ctxt.get_field(t[2], python.builtins.str))
        elseif op == "other" then
            local other = python.import("pico_cart").read_cart(t[2])
            rommemcpy(cart.rom, 0, other.rom, 0, 0x2000)
        elseif op == "write" then
            local pico_cart = python.import("pico_cart")
            local new = cart.copy()
            rommemset(new.rom, 0, 0, 0x2000)
            pico_cart.write_cart(t[2], new, pico_cart.CartFormat(t[3]))
        end
    end
end

function module.preprocess_main(opts)
    apply(opts.cart, opts.ctxt, opts.args, "pre")
end

function module.preprocess_syntax_main(opts)
    local NodeType = python.import("pico_parse").NodeType
    local names = ops(opts.args, "syntax")
    local function visit(node)
        if node.type == NodeType.call and node.func.type == NodeType["var"] then
            for t in all(names) do
                if (t[1] == node.func.name) opts.on_error(ME.." says "..node.func.name, node)
            end
        end
    end
    opts.root.traverse_nodes(python.args{pre=visit, extra=true})
end

function module.postprocess_main(opts)
    apply(opts.cart, opts.ctxt, opts.args, "post")
end

return module
