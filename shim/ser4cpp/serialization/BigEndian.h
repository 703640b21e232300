#ifndef SER4CPP_SERIALIZATION_BIGENDIAN_H
#define SER4CPP_SERIALIZATION_BIGENDIAN_H
#include <cstdint>
#include "ser4cpp/container/SequenceTypes.h"
namespace ser4cpp
{
#ifndef SER4CPP_BYTE_ORDER_HELPERS
#define SER4CPP_BYTE_ORDER_HELPERS
template<class T, bool Big>
class Serializer
{
public:
    using type_t = T;
    static const size_t size = sizeof(T);
    static const size_t SIZE = sizeof(T);
    static bool read_from(rseq_t& input, T& output)
    {
        if(input.length() < sizeof(T)) return false;
        output = read(input);
        input.advance(sizeof(T));
        return true;
    }
    static T read(const uint8_t* data)
    {
        uint64_t v = 0;
        for(size_t i = 0; i < sizeof(T); ++i)
            v |= static_cast<uint64_t>(data[i]) << (8 * (Big ? sizeof(T) - 1 - i : i));
        return static_cast<T>(v);
    }
    static bool write_to(wseq_t& dest, T value)
    {
        if(dest.length() < sizeof(T)) return false;
        write(dest, value);
        dest.advance(sizeof(T));
        return true;
    }
    static void write(uint8_t* dest, T value)
    {
        const auto v = static_cast<uint64_t>(value);
        for(size_t i = 0; i < sizeof(T); ++i)
            dest[i] = static_cast<uint8_t>(v >> (8 * (Big ? sizeof(T) - 1 - i : i)));
    }
};
#endif
using UInt8 = Serializer<uint8_t, true>;
using UInt16 = Serializer<uint16_t, true>;
using UInt32 = Serializer<uint32_t, true>;
using UInt64 = Serializer<uint64_t, true>;
using Int16 = Serializer<int16_t, true>;
using Int32 = Serializer<int32_t, true>;
using Int64 = Serializer<int64_t, true>;
}
#endif
