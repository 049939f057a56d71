// C23: loaded bytecode is verified before it can run.
#include <map>
#include <set>

#include "api/internal.hpp"
#include "bytecode/function.hpp"
#include "bytecode/module.hpp"
#include "bytecode/op.hpp"
#include "common/items.hpp"
#include "vm/modules/verify.hpp"

using namespace mc;

const char* const mc::check_id = "C23";

namespace {

using tiro::BytecodeFunction;
using tiro::BytecodeFunctionType;
using tiro::BytecodeMember;
using tiro::BytecodeMemberId;
using tiro::BytecodeMemberType;
using tiro::BytecodeModule;
using tiro::BytecodeOffset;
using tiro::BytecodeOp;

// ---- The model: the operands of all instructions, as documented in bytecode/op.hpp ----
// r local, p parameter, j code offset, s symbol, t record schema, c closure function, m other module member,
// u any 32 bit number, l any 64 bit number
const std::map<BytecodeOp, const char*> formats = {
    {BytecodeOp::LoadNull, "r"}, {BytecodeOp::LoadFalse, "r"}, {BytecodeOp::LoadTrue, "r"}, {BytecodeOp::LoadInt, "lr"}, {BytecodeOp::LoadFloat, "lr"},
    {BytecodeOp::LoadParam, "pr"}, {BytecodeOp::StoreParam, "rp"}, {BytecodeOp::LoadModule, "mr"}, {BytecodeOp::StoreModule, "rm"},
    {BytecodeOp::LoadMember, "rsr"}, {BytecodeOp::StoreMember, "rrs"}, {BytecodeOp::LoadTupleMember, "rur"}, {BytecodeOp::StoreTupleMember, "rru"},
    {BytecodeOp::LoadIndex, "rrr"}, {BytecodeOp::StoreIndex, "rrr"}, {BytecodeOp::LoadClosure, "r"}, {BytecodeOp::LoadEnv, "ruur"}, {BytecodeOp::StoreEnv, "rruu"},
    {BytecodeOp::Add, "rrr"}, {BytecodeOp::Sub, "rrr"}, {BytecodeOp::Mul, "rrr"}, {BytecodeOp::Div, "rrr"}, {BytecodeOp::Mod, "rrr"}, {BytecodeOp::Pow, "rrr"},
    {BytecodeOp::UAdd, "rr"}, {BytecodeOp::UNeg, "rr"}, {BytecodeOp::LSh, "rrr"}, {BytecodeOp::RSh, "rrr"}, {BytecodeOp::BAnd, "rrr"}, {BytecodeOp::BOr, "rrr"},
    {BytecodeOp::BXor, "rrr"}, {BytecodeOp::BNot, "rr"}, {BytecodeOp::Gt, "rrr"}, {BytecodeOp::Gte, "rrr"}, {BytecodeOp::Lt, "rrr"}, {BytecodeOp::Lte, "rrr"},
    {BytecodeOp::Eq, "rrr"}, {BytecodeOp::NEq, "rrr"}, {BytecodeOp::LNot, "rr"}, {BytecodeOp::Array, "ur"}, {BytecodeOp::Tuple, "ur"}, {BytecodeOp::Set, "ur"},
    {BytecodeOp::Map, "ur"}, {BytecodeOp::Env, "rur"}, {BytecodeOp::Closure, "crr"}, {BytecodeOp::Record, "tr"}, {BytecodeOp::Iterator, "rr"},
    {BytecodeOp::IteratorNext, "rrr"}, {BytecodeOp::Formatter, "r"}, {BytecodeOp::AppendFormat, "rr"}, {BytecodeOp::FormatResult, "rr"}, {BytecodeOp::Copy, "rr"},
    {BytecodeOp::Swap, "rr"}, {BytecodeOp::Push, "r"}, {BytecodeOp::Pop, ""}, {BytecodeOp::PopTo, "r"}, {BytecodeOp::Jmp, "j"}, {BytecodeOp::JmpTrue, "rj"},
    {BytecodeOp::JmpFalse, "rj"}, {BytecodeOp::JmpNull, "rj"}, {BytecodeOp::JmpNotNull, "rj"}, {BytecodeOp::Call, "ru"}, {BytecodeOp::LoadMethod, "rsrr"},
    {BytecodeOp::CallMethod, "ru"}, {BytecodeOp::Return, "r"}, {BytecodeOp::Rethrow, ""}, {BytecodeOp::AssertFail, "rr"},
};

const char* const* format_table() {
    static const char* t[256] = {};
    static const bool init = [] {
        for (auto& [op, f] : formats)
            t[static_cast<uint8_t>(op)] = f;
        return true;
    }();
    (void) init;
    return t;
}

using Code = std::vector<tiro::byte>;

struct Operand {
    char kind;
    size_t at; // offset of its bytes
    uint64_t value;
};
struct Instr {
    size_t at;
    uint8_t op;
    std::vector<Operand> operands;
};

size_t width(char kind) {
    return kind == 'l' ? 8 : 4;
}

uint64_t read_be(const Code& code, size_t at, size_t n) {
    uint64_t v = 0;
    for (size_t i = 0; i < n; ++i)
        v = v << 8 | static_cast<uint8_t>(code[at + i]);
    return v;
}

void write_u32(Code& code, size_t at, uint32_t v) {
    for (int i = 3; i >= 0; --i) {
        code[at + size_t(i)] = tiro::byte(v & 0xff);
        v >>= 8;
    }
}

// False if the code consists of anything but complete, existing instructions.
bool decode(const Code& code, std::vector<Instr>& out) {
    out.clear();
    for (size_t p = 0; p < code.size();) {
        const char* f = format_table()[static_cast<uint8_t>(code[p])];
        if (!f)
            return false;
        Instr ins{p, static_cast<uint8_t>(code[p]), {}};
        ++p;
        for (; *f; ++f) {
            const size_t n = width(*f);
            if (code.size() - p < n)
                return false;
            ins.operands.push_back({*f, p, read_be(code, p, n)});
            p += n;
        }
        out.push_back(std::move(ins));
    }
    return true;
}

// What a function refers to that does not exist; empty if there is nothing to object.
std::string objection(const BytecodeModule& m, const BytecodeFunction& fn, const Code& code) {
    thread_local std::vector<Instr> instrs;
    if (!decode(code, instrs))
        return "invalid instruction";
    if (instrs.empty())
        return "empty";
    std::vector<bool> starts(code.size() + 1);
    for (auto& i : instrs)
        starts[i.at] = true;
    auto start = [&](uint64_t o) { return o < code.size() && starts[o]; };
    for (auto& i : instrs) {
        if (BytecodeOp(i.op) == BytecodeOp::LoadClosure && fn.type() != BytecodeFunctionType::Closure)
            return "closure of a normal function";
        for (auto& o : i.operands) {
            switch (o.kind) {
            case 'r':
                if (o.value >= fn.locals())
                    return "local";
                break;
            case 'p':
                if (o.value >= fn.params())
                    return "parameter";
                break;
            case 'j':
                if (!start(o.value))
                    return "jump";
                break;
            case 's':
            case 't':
            case 'c':
            case 'm': {
                if (o.value >= m.member_count())
                    return "member";
                const auto& member = m.members()[BytecodeMemberId(uint32_t(o.value))];
                if (o.kind == 's' && member.type() != BytecodeMemberType::Symbol)
                    return "symbol";
                if (o.kind == 't' && member.type() != BytecodeMemberType::RecordSchema)
                    return "schema";
                if (o.kind == 'c') {
                    if (member.type() != BytecodeMemberType::Function)
                        return "function";
                    const auto fid = member.as_function().id;
                    if (m.functions()[fid].type() != BytecodeFunctionType::Closure)
                        return "closure function";
                }
                break;
            }
            }
        }
    }
    switch (BytecodeOp(instrs.back().op)) {
    case BytecodeOp::Return:
    case BytecodeOp::Rethrow:
    case BytecodeOp::Jmp:
    case BytecodeOp::AssertFail:
        break;
    default:
        return "runs past its end";
    }
    uint32_t handled = 0; // handlers are searched by position: they must not overlap
    for (auto& h : fn.handlers()) {
        if (!h.from || !h.to || !h.target)
            return "invalid handler";
        if (!start(h.from.value()) || !start(h.target.value()))
            return "handler";
        if (!start(h.to.value()) && h.to.value() != code.size())
            return "end of handler";
        if (h.to.value() <= h.from.value())
            return "handler range";
        if (h.from.value() < handled)
            return "order of handlers";
        handled = h.to.value();
    }
    return "";
}

// ---- Modules ----

struct Program {
    std::string name, source;
};

const std::vector<Program>& programs() {
    static const std::vector<Program> all = [] {
        std::vector<Program> r;
        for (size_t i = 0; i < items.size(); ++i)
            r.push_back({items[i].name, source(decls_of(i, "1"))});
        r.push_back({"operators", prelude + "export func main1() { const f = func(a, b) = [a + b, a - b, a * b, a / b, a % b, a ** b, +a, -a, a << b, a >> b, a & b, a | b, a ^ b, ~a, a > b, a >= b, a < b, a <= b, a == b, a != b, !a]; return f(7, 2); }"});
        r.push_back({"parameters stored", prelude + "export func main1() { const f = func(a, b) { a = b; b = 3; const g = func() { a += 1; return (a, b); }; return g(); }; return f(1, 2); }"});
        return r;
    }();
    return all;
}

struct Loaded {
    CompileResult compiled;
    std::string good; // its behaviour
    BytecodeModule& mod() { return *compiled.module->mod; }
};

std::string behaviour(Vm& vm) {
    std::string s;
    for (int i = 0; i < 2; ++i) {
        auto o = vm.call("m", "main1");
        s += fmt::format("{} [{}]\n", o.str(), vm.take_log());
    }
    return s;
}

Loaded load(const Program& p) {
    Loaded l{compile(p.source, "m"), ""};
    MC_CHECK(l.compiled.error.ok(), "{}", l.compiled.describe());
    // Must be accepted as it is.
    Vm vm;
    auto e = vm.load(l.compiled.module);
    MC_CHECK(e.ok(), "a compiled module was refused: {} {}", e.message, e.details);
    l.good = behaviour(vm);
    return l;
}

// Tries changed modules on a virtual machine that must not notice the refused ones.
class Trial {
public:
    explicit Trial(Loaded& l)
        : l_(l) {}

    // The module has been changed; `objection` says what it refers to that does not exist.
    void test(const std::string& objection, const std::function<std::string()>& what) {
        R.evaluations(1);
        if (objection.empty()) {
            // Not wrong in this respect; whether it is accepted is not judged.
            try {
                tiro::vm::verify_module(l_.mod());
                ++accepted;
            } catch (const std::exception&) {
            }
            return;
        }
        ++refused;
        R.transitions(1);
        auto e = vm_.load(l_.compiled.module);
        if (e.ok())
            fail("{}: loaded although the module is invalid ({})", what(), objection);
    }

    // After the module has been restored.
    void finish() {
        MC_CHECK(refused > 0, "nothing was tested");
        auto e = vm_.load(l_.compiled.module);
        MC_CHECK(e.ok(), "after {} refused modules, the original one is refused: {} {}", refused, e.message, e.details);
        const auto s = behaviour(vm_);
        MC_CHECK(s == l_.good, "the original module behaves differently after {} refused ones:\n{}\nexpected\n{}", refused, s, l_.good);
        R.traces(1);
        R.states(refused + accepted);
        R.nontrivial(refused);
        R.cov("refused modules", refused);
        R.cov("changed modules that may be accepted", accepted);
    }

private:
    Loaded& l_;
    Vm vm_;
    uint64_t refused = 0, accepted = 0;
};

const uint32_t big_numbers[] = {0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 1 << 14, 1 << 20, 65536, 256};

// ---- Changes of code ----

enum CodeChange { Operands, Bytes, Lengths, Shapes, Tables, num_code_changes };
const char* const change_names[] = {"operands", "bytes", "lengths", "instructions", "tables"};

void change_code(Loaded& l, tiro::BytecodeFunctionId fid, CodeChange change) {
    auto& mod = l.mod();
    auto& fn = mod.functions()[fid];
    const Code original = fn.code();
    std::vector<Instr> instrs;
    MC_CHECK(decode(original, instrs) && objection(mod, fn, original).empty(), "the model refuses the original: {}", objection(mod, fn, original));
    Trial t(l);
    auto run = [&](const std::function<std::string()>& what) { t.test(objection(mod, fn, fn.code()), what); };

    switch (change) {
    case Operands:
        for (auto& i : instrs)
            for (auto& o : i.operands) {
                std::set<uint32_t> values(std::begin(big_numbers), std::end(big_numbers));
                const uint32_t limit = o.kind == 'r' ? fn.locals() : o.kind == 'p' ? fn.params() : o.kind == 'j' ? uint32_t(original.size()) : o.kind == 'u' || o.kind == 'l' ? 0 : uint32_t(mod.member_count());
                for (uint32_t v = 0; v < std::min(limit, 4000u) + 6; ++v)
                    values.insert(v);
                for (uint32_t d = 0; d < 4; ++d) {
                    values.insert(limit + d);
                    values.insert(limit - d - 1);
                    values.insert((limit + d) << 8);
                }
                for (uint32_t v : values) {
                    if (o.kind == 'l')
                        break;
                    write_u32(fn.code(), o.at, v);
                    run([&] { return fmt::format("instruction {} at {}: operand at {} changed from {} to {}", tiro::to_string(BytecodeOp(i.op)), i.at, o.at, o.value, v); });
                }
                fn.code() = original;
            }
        break;
    case Bytes:
        for (size_t p = 0; p < original.size(); ++p) {
            for (int v = 0; v < 256; ++v) {
                fn.code()[p] = tiro::byte(v);
                run([&] { return fmt::format("byte {} changed from {} to {}", p, int(original[p]), v); });
            }
            fn.code()[p] = original[p];
        }
        break;
    case Lengths:
        for (size_t n = 0; n < original.size(); ++n) {
            fn.code().assign(original.begin(), original.begin() + long(n));
            run([&] { return fmt::format("cut to {} bytes", n); });
            // The removed part is at the beginning, or in the middle
            fn.code().assign(original.begin() + long(n) + 1, original.end());
            run([&] { return fmt::format("without the first {} bytes", n + 1); });
            for (size_t k = 1; k < 14 && n + k <= original.size(); ++k) {
                fn.code() = original;
                fn.code().erase(fn.code().begin() + long(n), fn.code().begin() + long(n + k));
                run([&] { return fmt::format("without the bytes {} to {}", n, n + k - 1); });
            }
        }
        for (size_t n = 0; n <= original.size(); ++n)
            for (int v = 0; v < 80; ++v)
                for (size_t k : {size_t(1), size_t(5), size_t(9)}) {
                    if (!R.thorough && (n + size_t(v) + k) % 3)
                        continue;
                    fn.code() = original;
                    fn.code().insert(fn.code().begin() + long(n), k, tiro::byte(0));
                    fn.code()[n] = tiro::byte(v);
                    run([&] { return fmt::format("{} bytes inserted at {}, the first is {}", k, n, v); });
                }
        fn.code() = original;
        break;
    case Shapes:
        // Every instruction replaced by every other one with the same operands, repeated, dropped, appended.
        for (size_t n = 0; n <= instrs.size(); ++n) {
            const size_t at = n < instrs.size() ? instrs[n].at : original.size();
            const size_t end = n + 1 < instrs.size() ? instrs[n + 1].at : original.size();
            for (auto& [op, format] : formats) {
                for (uint32_t fill : {0u, fn.locals(), 0xffffffffu}) {
                    Code ins{tiro::byte(static_cast<uint8_t>(op))};
                    size_t k = 0;
                    for (const char* f = format; *f; ++f, ++k) {
                        const size_t p = ins.size();
                        ins.resize(p + width(*f));
                        uint32_t v = 0;
                        if (fill && (*f == 'r' || *f == 'u'))
                            v = fill;
                        write_u32(ins, p + width(*f) - 4, v);
                    }
                    fn.code() = original;
                    if (fill == 0) {
                        fn.code().erase(fn.code().begin() + long(at), fn.code().begin() + long(end));
                        fn.code().insert(fn.code().begin() + long(at), ins.begin(), ins.end());
                        run([&] { return fmt::format("instruction at {} replaced by {}", at, tiro::to_string(op)); });
                        fn.code() = original;
                    }
                    fn.code().insert(fn.code().begin() + long(at), ins.begin(), ins.end());
                    run([&] { return fmt::format("{} with operands {} inserted at {}", tiro::to_string(op), fill, at); });
                }
            }
        }
        fn.code() = original;
        break;
    case Tables: {
        const auto locals = fn.locals(), params = fn.params();
        for (uint32_t n = 0; n < std::min(locals, 3000u) + 3; ++n) {
            fn.locals(n);
            run([&] { return fmt::format("{} instead of {} locals", n, locals); });
        }
        fn.locals(locals);
        for (uint32_t n = 0; n < params + 3; ++n) {
            fn.params(n);
            run([&] { return fmt::format("{} instead of {} parameters", n, params); });
        }
        fn.params(params);

        auto& handlers = fn.handlers();
        const auto original_handlers = handlers;
        std::set<uint32_t> offsets(std::begin(big_numbers), std::end(big_numbers));
        for (uint32_t o = 0; o < original.size() + 8; ++o)
            offsets.insert(o);
        for (size_t h = 0; h < handlers.size(); ++h)
            for (int field = 0; field < 3; ++field)
                for (uint32_t o : offsets) {
                    handlers = original_handlers;
                    (field == 0 ? handlers[h].from : field == 1 ? handlers[h].to : handlers[h].target) = BytecodeOffset(o);
                    run([&] { return fmt::format("handler {}: field {} is {}", h, field, o); });
                }
        // All pairs of handlers twice, and in the other order
        for (size_t a = 0; a < original_handlers.size(); ++a)
            for (size_t b = 0; b < original_handlers.size(); ++b) {
                handlers = original_handlers;
                std::swap(handlers[a], handlers[b]);
                run([&] { return fmt::format("handlers {} and {} exchanged", a, b); });
                handlers.assign({original_handlers[a], original_handlers[b]});
                run([&] { return fmt::format("only handlers {} and {}", a, b); });
            }
        // A new handler
        for (uint32_t from : offsets)
            for (uint32_t to : {from, from + 1, uint32_t(original.size()), uint32_t(original.size() + 1), uint32_t(-1)})
                for (uint32_t target : {0u, uint32_t(instrs.back().at), uint32_t(original.size()), uint32_t(-1)}) {
                    handlers.assign(1, tiro::ExceptionHandler(BytecodeOffset(from), BytecodeOffset(to), BytecodeOffset(target)));
                    run([&] { return fmt::format("only handler: {} to {}, target {}", from, to, target); });
                }
        handlers = original_handlers;
        break;
    }
    default:
        break;
    }
    t.finish();
}

// ---- Changes of members, exports and the initializer ----

// What is wrong with the module as a whole, including everything the functions refer to.
std::string module_objection(const BytecodeModule& m) {
    const auto count = m.member_count();
    auto type = [&](BytecodeMemberId id, size_t below) -> int {
        if (!id || id.value() >= below)
            return -1;
        return int(m.members()[id].type());
    };
    auto is = [&](BytecodeMemberId id, size_t below, BytecodeMemberType t) { return type(id, below) == int(t); };
    auto string_ok = [&](tiro::InternedString s) { return s && s.value() <= m.strings().size(); };
    if (!string_ok(m.name()))
        return "name of the module";
    for (uint32_t i = 0; i < count; ++i) {
        const auto& member = m.members()[BytecodeMemberId(i)];
        switch (member.type()) {
        case BytecodeMemberType::String:
            if (!string_ok(member.as_string().value))
                return "string";
            break;
        case BytecodeMemberType::Symbol:
            if (!is(member.as_symbol().name, i, BytecodeMemberType::String))
                return "name of symbol";
            break;
        case BytecodeMemberType::Import:
            if (!is(member.as_import().module_name, i, BytecodeMemberType::String))
                return "name of import";
            break;
        case BytecodeMemberType::Function: {
            const auto id = member.as_function().id;
            if (!id || id.value() >= m.function_count())
                return "function";
            const auto& fn = m.functions()[id];
            if (fn.name() && !is(fn.name(), i, BytecodeMemberType::String))
                return "name of function";
            break;
        }
        case BytecodeMemberType::RecordSchema: {
            const auto id = member.as_record_schema().id;
            if (!id || id.value() >= m.record_count())
                return "schema";
            for (auto k : m.records()[id].keys())
                if (!is(k, i, BytecodeMemberType::Symbol))
                    return "key of schema";
            break;
        }
        default:
            break;
        }
    }
    auto normal = [&](BytecodeMemberId id) {
        const auto fid = m.members()[id].as_function().id;
        return m.functions()[fid].type() == BytecodeFunctionType::Normal;
    };
    if (m.init()) {
        if (!is(m.init(), count, BytecodeMemberType::Function) || !normal(m.init()))
            return "initializer";
    }
    for (auto [symbol, value] : m.exports()) {
        if (!is(symbol, count, BytecodeMemberType::Symbol))
            return "name of export";
        const int t = type(value, count);
        if (t < 0 || t == int(BytecodeMemberType::Import) || t == int(BytecodeMemberType::RecordSchema))
            return "exported value";
        if (t == int(BytecodeMemberType::Function) && !normal(value))
            return "exported function";
    }
    for (auto member_id : m.member_ids()) {
        const auto& member = m[member_id];
        if (member.type() != BytecodeMemberType::Function)
            continue;
        const auto& fn = m.functions()[member.as_function().id];
        Code code(fn.code().begin(), fn.code().end());
        if (auto s = objection(m, fn, code); !s.empty())
            return s;
    }
    return "";
}

void change_members(Loaded& l) {
    auto& mod = l.mod();
    MC_CHECK(module_objection(mod).empty(), "the model refuses the original: {}", module_objection(mod));
    Trial t(l);
    auto run = [&](const std::function<std::string()>& what) { t.test(module_objection(mod), what); };
    std::vector<uint32_t> ids(std::begin(big_numbers), std::end(big_numbers));
    for (uint32_t i = 0; i < mod.member_count() + 4; ++i)
        ids.push_back(i);

    for (uint32_t m = 0; m < mod.member_count(); ++m) {
        auto& member = mod.members()[BytecodeMemberId(m)];
        const BytecodeMember original = member;
        for (uint32_t id : ids) {
            const BytecodeMemberId ref(id);
            std::vector<BytecodeMember> changed = {
                BytecodeMember::make_symbol(ref),
                BytecodeMember::make_import(ref),
                BytecodeMember::make_function(tiro::BytecodeFunctionId(id)),
                BytecodeMember::make_record_schema(tiro::BytecodeRecordSchemaId(id)),
                BytecodeMember::make_string(tiro::InternedString(id)),
                BytecodeMember::make_variable(BytecodeMemberId(), BytecodeMemberId()),
                BytecodeMember::make_integer(id),
            };
            for (auto& c : changed) {
                member = c;
                run([&] { return fmt::format("member {} changed to {} {}", m, tiro::to_string(c.type()), id); });
            }
        }
        member = original;
    }
    for (auto fid : mod.function_ids()) {
        auto& fn = mod.functions()[fid];
        const auto name = fn.name();
        for (uint32_t id : ids) {
            fn.name(BytecodeMemberId(id));
            run([&] { return fmt::format("function {}: name is member {}", fid.value(), id); });
        }
        fn.name(name);
        const auto type = fn.type();
        fn.type(type == BytecodeFunctionType::Normal ? BytecodeFunctionType::Closure : BytecodeFunctionType::Normal);
        run([&] { return fmt::format("function {}: other type", fid.value()); });
        fn.type(type);
    }
    for (auto rid : mod.record_ids()) {
        auto& keys = mod.records()[rid].keys();
        const auto original = keys;
        for (size_t k = 0; k <= original.size(); ++k)
            for (uint32_t id : ids) {
                keys = original;
                if (k < keys.size())
                    keys[k] = BytecodeMemberId(id);
                else
                    keys.push_back(BytecodeMemberId(id));
                run([&] { return fmt::format("schema {}: key {} is member {}", rid.value(), k, id); });
            }
        keys = original;
    }
    const auto init = mod.init();
    for (uint32_t id : ids) {
        mod.init(BytecodeMemberId(id));
        run([&] { return fmt::format("initializer is member {}", id); });
    }
    mod.init(init);
    const auto name = mod.name();
    for (uint32_t id : {0u, uint32_t(mod.strings().size() + 1), 0xffffffffu, 0x7fffffffu}) {
        mod.name(tiro::InternedString(id));
        run([&] { return fmt::format("name of the module is string {}", id); });
    }
    mod.name(name);
    t.finish();
}

// Exports can only be added.
void change_exports(const Program& p) {
    Loaded l = load(p);
    std::vector<uint32_t> ids{0xffffffff, 0x7fffffff};
    for (uint32_t i = 0; i < l.mod().member_count() + 2; ++i)
        ids.push_back(i);
    Vm vm;
    uint64_t refused = 0;
    const size_t some = R.thorough ? 1000 : 12;
    for (size_t a = 0; a < ids.size(); ++a)
        for (size_t b = 0; b < ids.size(); ++b) {
            if (a > some && b > some)
                continue;
            auto c = compile(p.source, "m");
            auto& mod = *c.module->mod;
            mod.add_export(BytecodeMemberId(ids[a]), BytecodeMemberId(ids[b]));
            R.evaluations(1);
            const auto o = module_objection(mod);
            if (o.empty())
                continue;
            ++refused;
            auto e = vm.load(c.module);
            MC_CHECK(!e.ok(), "export of member {} as member {} is accepted ({})", ids[b], ids[a], o);
        }
    auto e = vm.load(l.compiled.module);
    MC_CHECK(e.ok(), "after {} refused modules, the original one is refused: {} {}", refused, e.message, e.details);
    MC_CHECK(behaviour(vm) == l.good, "the original module behaves differently after {} refused ones", refused);
    R.states(refused);
    R.nontrivial(refused);
}

} // namespace

void mc::enumerate() {
    // What the compiler produces is accepted.
    for (size_t n : {size_t(1), size_t(2), size_t(17), size_t(150), size_t(1000)})
        for (int kind : {0, 1, 2, 3, 4, 5, 6, 9})
            R.run(fmt::format("compiled wide {} {}", kind, n), [&] {
                auto l = load({"", wide(n, kind)});
                auto o = module_objection(l.mod());
                MC_CHECK(o.empty(), "the compiler produced an invalid module: {}", o);
            });
    for (size_t a = 0; a < items.size(); ++a)
        R.run(fmt::format("compiled pairs with {}", items[a].name), [&] {
            for (size_t b = 0; b < items.size(); ++b) {
                auto x = decls_of(a, "1"), y = decls_of(b, "0");
                x.insert(x.end(), y.begin(), y.end());
                auto l = load({"", source(x)});
                auto o = module_objection(l.mod());
                MC_CHECK(o.empty(), "the compiler produced an invalid module: {}", o);
            }
        });

    for (auto& p : programs()) {
        R.run(fmt::format("{}: members", p.name), [&] {
            auto l = load(p);
            change_members(l);
        });
        R.run(fmt::format("{}: exports", p.name), [&] { change_exports(p); });
        // The number of functions is not known before the program is compiled, which every process does.
        size_t functions = 12;
        for (uint32_t f = 0; f < functions; ++f)
            for (int c = 0; c < num_code_changes; ++c) {
                if (!R.claim())
                    continue;
                R.exec(fmt::format("{}: function {}, {}", p.name, f, change_names[c]), [&] {
                    auto l = load(p);
                    MC_CHECK(l.mod().function_count() <= functions, "more functions");
                    if (f < l.mod().function_count())
                        change_code(l, tiro::BytecodeFunctionId(f), CodeChange(c));
                });
            }
    }
}
