#include "common/batch.hpp"

namespace mc {

std::string ProgramBatch::text(const ref::Node& body, const ref::Node* decls) {
    std::string s;
    if (decls) {
        ref::print_decls(*decls, s);
        s += "---\n";
    }
    ref::print_block_body(body, s, 1);
    return s;
}

static std::string numbered(std::string_view s, size_t i) {
    std::string r;
    for (char c : s)
        if (c == '@')
            r += fmt::format("{}", i);
        else
            r += c;
    return r;
}

void ProgramBatch::add(const ref::Node& body, const ref::Node* decls) {
    if (R.replaying()) {
        std::string s = text(body, decls);
        if (batch_replay_ || R.replay_key() == "BATCH " + s) {
            // a whole batch, beginning with this program
            batch_replay_ = true;
            ref::Expected x = ref::evaluate(body, fuel_, decls);
            if (!x.fuel && !x.unsupported)
                items_.push_back({s, std::move(x)});
            if (++count_ >= limit_)
                flush();
            return;
        }
        if (s != R.replay_key())
            return;
        R.claim();
        R.exec(s, [&] {
            items_.clear();
            items_.push_back({s, ref::evaluate(body, fuel_, decls)});
            run(0, 1);
        });
        return;
    }
    if (count_ == 0)
        mine_ = R.claim();
    ++count_;
    if (mine_) {
        ref::Expected x = ref::evaluate(body, fuel_, decls);
        if (x.fuel || x.unsupported) {
            R.cov(x.fuel ? "skipped: step budget" : "skipped: outside of the reference");
        } else {
            items_.push_back({text(body, decls), std::move(x)});
        }
    }
    if (count_ >= limit_)
        flush();
}

void ProgramBatch::flush() {
    count_ = 0;
    if (R.replaying()) {
        batch_replay_ = false;
        if (!items_.empty())
            R.exec(items_[0].source, [&] { run(0, items_.size()); });
        return;
    }
    if (mine_ && !items_.empty())
        R.exec_batch(
            items_.size(), [&](size_t i) { return items_[i].source; }, [&](size_t b, size_t e) { run(b, e); });
    items_.clear();
    mine_ = false;
}

void ProgramBatch::run(size_t b, size_t e) {
    std::string src = "import std;\nimport h;\n" + prelude;
    for (size_t i = b; i < e; ++i) {
        std::string text = numbered(items_[i].source, i);
        size_t pos = text.find("---\n");
        if (pos != text.npos) {
            src += text.substr(0, pos);
            text = text.substr(pos + 4);
        }
        src += fmt::format("export func f{}() {{\n{}}}\n", i, text);
    }
    Vm vm;
    vm.load_source(src, "m");
    for (size_t i = b; i < e; ++i) {
        R.sub(i);
        const auto& x = items_[i].expected;
        vm.log.clear();
        std::string problem;
        try {
            Outcome o = vm.call("m", fmt::format("f{}", i));
            R.states(vm.log.size() + 1);
            std::string log = vm.take_log();
            R.evaluations();
            R.traces();
            R.transitions(x.steps);
            if (!x.log.empty() || !x.ok)
                R.nontrivial();
            R.outcome(o.str() + "|" + log);
            R.cov(o.ok ? "value" : "panic");
            if (o.ok != x.ok || !ref::match(x.value, o.value) || !ref::match(x.log, log))
                problem = fmt::format("expected {} {}\n  with log: {}\nobserved {}\n  with log: {}", x.ok ? "value" : "panic",
                    ref::show(x.value), ref::show(x.log), o.str(), log);
            else if (R.want_sample())
                R.sample(fmt::format("{} => {} [log {}]", items_[i].source, o.str(), log));
        } catch (const Failure& f) {
            problem = f.what;
            R.sub_fail(i, problem);
            // The state of the machine is unknown now.
            if (i + 1 < e)
                run(i + 1, e);
            return;
        }
        if (!problem.empty())
            R.sub_fail(i, problem);
    }
}

} // namespace mc
