#ifndef SER4CPP_CONTAINER_BUFFER_H
#define SER4CPP_CONTAINER_BUFFER_H
#include <memory>
#include "ser4cpp/container/SequenceTypes.h"
#include "ser4cpp/util/Uncopyable.h"
namespace ser4cpp
{
class Buffer final : public HasLength<size_t>, private Uncopyable
{
public:
    Buffer() : HasLength(0), m_buffer(nullptr) {}
    explicit Buffer(size_t length) : HasLength(length), m_buffer(new uint8_t[length]()) {}
    explicit Buffer(const rseq_t& input) : Buffer(input.length())
    {
        auto dest = this->as_wslice();
        dest.copy_from(input);
    }
    rseq_t as_rslice() const { return rseq_t(m_buffer.get(), this->m_length); }
    wseq_t as_wslice() { return wseq_t(m_buffer.get(), this->m_length); }
    wseq_t as_wslice() const { return wseq_t(m_buffer.get(), this->m_length); }
    const uint8_t* operator()() const { return m_buffer.get(); }
    uint8_t* operator()() { return m_buffer.get(); }
    uint8_t& operator[](size_t i) { return m_buffer[i]; }
    const uint8_t& operator[](size_t i) const { return m_buffer[i]; }

private:
    std::unique_ptr<uint8_t[]> m_buffer;
};
}
#endif
