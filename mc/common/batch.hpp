// Runs enumerated programs, many per compiled module, against the reference interpreter.
#pragma once
#include "common/lang.hpp"
#include "common/ref.hpp"

namespace mc {

struct ProgramBatch {
    explicit ProgramBatch(size_t limit = 64, uint64_t fuel = 4000)
        : limit_(limit)
        , fuel_(fuel) {}
    ~ProgramBatch() noexcept(false) {
        if (!std::uncaught_exceptions())
            flush();
    }

    // `body` is the function body; `prelude` module level declarations shared by all programs of this batch.
    // `decls` are module level declarations of this program; an '@' in a name is replaced by its number in the module.
    void add(const ref::Node& body, const ref::Node* decls = nullptr);
    void flush();

    std::string prelude;
    uint64_t skipped = 0;

private:
    struct Item {
        std::string source; // declarations and body
        ref::Expected expected;
    };
    void run(size_t b, size_t e);
    static std::string text(const ref::Node& body, const ref::Node* decls);

    size_t limit_, count_ = 0;
    uint64_t fuel_;
    bool mine_ = false, batch_replay_ = false;
    std::vector<Item> items_;
};

} // namespace mc
