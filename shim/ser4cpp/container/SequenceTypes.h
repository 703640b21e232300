#ifndef SER4CPP_CONTAINER_SEQUENCETYPES_H
#define SER4CPP_CONTAINER_SEQUENCETYPES_H
#include <cstddef>
#include <cstdint>
#include <cstring>
#include "ser4cpp/container/HasLength.h"
namespace ser4cpp
{
template<class L>
class RSeq : public HasLength<L>
{
public:
    static RSeq empty() { return RSeq(nullptr, 0); }
    RSeq() : HasLength<L>(0), m_buffer(nullptr) {}
    RSeq(const uint8_t* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}

    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    RSeq take(L count) const { return RSeq(m_buffer, (this->length() < count) ? this->length() : count); }
    RSeq skip(L count) const
    {
        const auto num = (this->length() < count) ? this->length() : count;
        return RSeq(m_buffer + num, this->length() - num);
    }
    void advance(L count)
    {
        const auto num = (this->length() < count) ? this->length() : count;
        m_buffer += num;
        this->m_length -= num;
    }
    operator const uint8_t*() const { return m_buffer; }
    bool equals(const RSeq& rhs) const
    {
        if(this->length() != rhs.length()) return false;
        return this->length() == 0 || std::memcmp(m_buffer, rhs.m_buffer, this->length()) == 0;
    }
    RSeq take_last(L count) const { return skip(this->length() > count ? this->length() - count : 0); }

private:
    const uint8_t* m_buffer;
};

template<class L>
class WSeq : public HasLength<L>
{
public:
    static WSeq empty() { return WSeq(); }
    WSeq() : HasLength<L>(0), m_buffer(nullptr) {}
    WSeq(uint8_t* buffer, L length) : HasLength<L>(length), m_buffer(buffer) {}

    void set_all_to(uint8_t value) { if(this->m_length) std::memset(m_buffer, value, this->length()); }
    void make_empty() { m_buffer = nullptr; this->m_length = 0; }
    bool put(uint8_t byte)
    {
        if(this->m_length == 0) return false;
        m_buffer[0] = byte;
        ++m_buffer;
        --this->m_length;
        return true;
    }
    L advance(L count)
    {
        const auto num = (this->length() < count) ? this->length() : count;
        m_buffer += num;
        this->m_length -= num;
        return num;
    }
    WSeq skip(L count) const
    {
        const auto num = (this->length() < count) ? this->length() : count;
        return WSeq(m_buffer + num, this->length() - num);
    }
    WSeq take(L count) const { return WSeq(m_buffer, (this->length() < count) ? this->length() : count); }
    RSeq<L> readonly() const { return RSeq<L>(m_buffer, this->length()); }
    operator const uint8_t*() const { return m_buffer; }
    operator uint8_t*() { return m_buffer; }
    uint8_t& operator[](size_t index) { return m_buffer[index]; }
    const uint8_t& operator[](size_t index) const { return m_buffer[index]; }

    // All or nothing
    RSeq<L> copy_from(const RSeq<L>& src)
    {
        if(src.length() > this->length()) return RSeq<L>::empty();
        const auto ret = this->readonly().take(src.length());
        if(src.length()) std::memcpy(m_buffer, static_cast<const uint8_t*>(src), src.length());
        this->advance(src.length());
        return ret;
    }
    RSeq<L> move_from(const RSeq<L>& src)
    {
        if(src.length() > this->length()) return RSeq<L>::empty();
        const auto ret = this->readonly().take(src.length());
        if(src.length()) std::memmove(m_buffer, static_cast<const uint8_t*>(src), src.length());
        this->advance(src.length());
        return ret;
    }

private:
    uint8_t* m_buffer;
};

using rseq_t = RSeq<size_t>;
using wseq_t = WSeq<size_t>;
}
#endif
