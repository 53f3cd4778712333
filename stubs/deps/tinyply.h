// Minimal stand-in for tinyply (absent offline): same calls as save_data.cpp makes; writes a binary PLY.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
namespace tinyply {
enum class Type : uint8_t { INVALID, INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 };
struct PlyFile {
    struct Block { std::string elem; std::vector<std::string> props; Type type; size_t count; const uint8_t* data; };
    std::vector<Block> blocks;
    void add_properties_to_element(const std::string& e, const std::vector<std::string>& p, const Type t, const size_t count, const uint8_t* data, const Type, const size_t){ blocks.push_back({e,p,t,count,data}); }
    std::vector<std::string>& get_comments(){ static std::vector<std::string> c; return c; }
    void write(std::ostream& os, bool binary){
        size_t n = blocks.empty() ? 0 : blocks[0].count;
        os << "ply\n" << (binary ? "format binary_little_endian 1.0\n" : "format ascii 1.0\n");
        os << "element vertex " << n << "\n";
        for (auto& b : blocks){ os << "comment count " << b.count << "\n"; for (auto& p : b.props) os << "property " << (b.type==Type::FLOAT32?"float":"double") << " " << p << "\n"; }
        os << "end_header\n";
        for (size_t i = 0; i < n; i++) for (auto& b : blocks){ size_t sz = (b.type==Type::FLOAT32?4:8)*b.props.size();
            if (i < b.count) os.write((const char*)b.data + i*sz, sz); }
    }
};
}
