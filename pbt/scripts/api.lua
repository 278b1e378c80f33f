-- does what the lines of the (first) script argument say both with shrinko's functions on the cart's rom and with pico8's on the memory
local module = {}

local function show(...)
    local s = ""
    for i=1,select("#", ...) do
        local v = select(i, ...)
        s ..= " "..(type(v) == "number" and tostr(v, 1) or tostr(v))
    end
    return s
end

local function hexstr(s)
    local r = ""
    for i=1,#s do r ..= sub(tostr(ord(s, i), 1), 5, 6) end
    return r
end

local function unhex(s)
    local r = ""
    for i=1,#s,2 do r ..= chr(tonum("0x"..sub(s, i, i+1))) end
    return r
end

function module.preprocess_main(opts)
    local rom = opts.cart.rom
    local argv = python.table(opts.args.script_args)
    local fh = io.open(argv[1], "r")
    local ops = split(fh:read("*a"), "\n", false)
    fh:close()
    local out = io.open(argv[2], "w")
    local all_of = shrinko.from_memory(rom)
    for i=0,0x42ff do poke(i, ord(all_of, i+1)) end
    for line in all(ops) do
        local t = split(line, " ", false)
        local op = deli(t, 1)
        if op == "utf8" then
            local s = unhex(t[1])
            local u = shrinko.to_utf8(s)
            out:write("utf8 "..hexstr(u).." "..hexstr(shrinko.from_utf8(u)).."\n")
        elseif op == "mem" then
            local s = unhex(t[1])
            local m = shrinko.to_memory(s)
            out:write("mem "..hexstr(shrinko.from_memory(m)).."\n")
        elseif op == "zero" then
            out:write("zero "..hexstr(shrinko.from_memory(shrinko.to_memory(tonum(t[1])))).."\n")
        elseif op == "fix" then
            local n = tonum(t[1])
            local f = shrinko.from_fixnum(n)
            out:write("fix "..python.builtins.str(f).." "..tostr(shrinko.to_fixnum(f), 1).."\n")
        elseif op == "str" then
            local bytes_to_string_contents = python.import("pico_utils").bytes_to_string_contents
            local s = unhex(t[1])
            local lit = bytes_to_string_contents(s)
            local f = load('return "'..lit..'"')
            out:write("str "..(f and hexstr(f()) or "bad").." "..(find_nl(lit) and "nl" or "").."\n")
        elseif op ~= "" then
            local args = {}
            for i, a in ipairs(t) do args[i] = tonum(a) end
            local a, b
            local n = #args
            if op == "memcpy" then
                memcpy(unpack(args)) rommemcpy(rom, args[1], rom, args[2], args[3])
            elseif op == "memset" then
                memset(unpack(args)) rommemset(rom, unpack(args))
            else
                a = show(_ENV[op](unpack(args)))
                b = show(_ENV["rom"..op](rom, unpack(args)))
                if (sub(op, 1, 4) == "poke") a, b = "", ""
                out:write(op.." native"..a.."\n"..op.." rom   "..b.."\n")
            end
        end
    end
    local mem, mine = "", shrinko.from_memory(rom)
    for i=0,0x42ff do
        if peek(i) ~= ord(mine, i+1) then out:write("different at "..tostr(i, 1).."\n") break end
    end
    out:close()
end

function find_nl(s)
    for i=1,#s do if (sub(s, i, i) == "\n" or sub(s, i, i) == "\r") return true end
end

return module
