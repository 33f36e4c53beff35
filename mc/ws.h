// WebSocket (RFC 6455) client side for the checks, independent of the server's implementation.
#pragma once
#include "mqtt.h"
#include <openssl/sha.h>
#include <openssl/evp.h>
namespace ws {
enum { CONT = 0, TEXT = 1, BIN = 2, CLOSE = 8, PING = 9, PONG = 10 };
inline std::string frame(int op, const std::string &payload, const char *mask = "\x12\xa5\x00\xff", bool fin = true, int enc = 0, int rsv = 0)
{
    std::string s; s += char((fin ? 0x80 : 0) | rsv << 4 | op);
    uint64_t n = payload.size(); int m = mask ? 0x80 : 0;
    if (enc == 8 || (enc == 0 && n > 65535)) { s += char(m | 127); for (int i = 7; i >= 0; i--) s += char(n >> (8 * i)); }
    else if (enc == 2 || n > 125) { s += char(m | 126); s += char(n >> 8); s += char(n); }
    else s += char(m | n);
    if (mask) { s.append(mask, 4); for (size_t i = 0; i < n; i++) s += char(payload[i] ^ mask[i % 4]); } else s += payload;
    return s;
}
inline std::string accept_key(const std::string &key)
{
    std::string k = key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"; unsigned char d[20]; SHA1((const unsigned char*)k.data(), k.size(), d);
    unsigned char o[64]; EVP_EncodeBlock(o, d, 20); return (char*)o;
}
inline std::string request(const std::string &key = "dGhlIHNhbXBsZSBub25jZQ==", const std::string &proto = "mqtt")
{
    return "GET /mqtt HTTP/1.1\r\nHost: server.example.com\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key + "\r\nOrigin: http://example.com\r\nSec-WebSocket-Protocol: " + proto + "\r\nSec-WebSocket-Version: 13\r\n\r\n";
}
struct Conn { // unwraps what the server sends
    mc::Cl *c = nullptr; std::string raw; std::vector<std::string> pongs; bool close_frame = false; size_t frames = 0, bytes = 0; bool up = false; std::string http;
    void pump()
    {
        raw += sim::take(c->c);
        if (!up) { auto p = raw.find("\r\n\r\n"); if (p == std::string::npos) return; http = raw.substr(0, p + 4); if (http.compare(0, 12, "HTTP/1.1 101") != 0) { http += raw.substr(p + 4); raw.clear(); return; } raw.erase(0, p + 4); up = true; }
        for (;;) {
            if (raw.size() < 2) return;
            unsigned b0 = (unsigned char)raw[0], b1 = (unsigned char)raw[1]; size_t h = 2; uint64_t n = b1 & 127;
            if (b0 & 0x70) mc::fail("ws-frame", "reserved bits in a frame from the server: %s", mc::hex(raw).c_str());
            if (!(b0 & 0x80)) mc::fail("ws-frame", "fragmented frame from the server: %s", mc::hex(raw).c_str());
            if (b1 & 0x80) mc::fail("ws-frame", "masked frame from the server: %s", mc::hex(raw).c_str());
            if (n == 126) { if (raw.size() < 4) return; n = (unsigned char)raw[2] << 8 | (unsigned char)raw[3]; h = 4; if (n < 126) mc::fail("ws-frame", "length not minimal"); }
            else if (n == 127) { if (raw.size() < 10) return; n = 0; for (int i = 0; i < 8; i++) n = n << 8 | (unsigned char)raw[2 + i]; h = 10; if (n < 65536) mc::fail("ws-frame", "length not minimal"); }
            if (raw.size() < h + n) return;
            std::string pl = raw.substr(h, n); raw.erase(0, h + n); frames++; bytes += n;
            int op = b0 & 15;
            if (op == BIN) c->rbuf += pl; else if (op == PONG) pongs.push_back(pl); else if (op == CLOSE) close_frame = true; else mc::fail("ws-frame", "frame with opcode %d from the server", op);
            if (op >= 8 && n > 125) mc::fail("ws-frame", "control frame of %llu bytes", (unsigned long long)n);
        }
    }
    std::vector<mq::Pkt> all() { pump(); c->pump(); std::vector<mq::Pkt> v(c->rx.begin(), c->rx.end()); c->rx.clear(); return v; }
};
}
