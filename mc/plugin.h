// A plugin for the server, as functions of the harness: dlopen/dlsym of /mcfs/plugin.so find these.
#pragma once
#include <flashmq_plugin.h>
#include <functional>
#include <string>
#include <vector>
#include <optional>
namespace mc {
using UserProps = std::vector<std::pair<std::string, std::string>>;
struct AclQ { AclAccess access; std::string clientid, username, topic; std::vector<std::string> subtopics; std::string share, payload; int qos = 0; bool retain = false; std::optional<std::string> corr, resp, ctype; UserProps up; };
struct PubQ { std::string clientid; std::string *topic; std::vector<std::string> subtopics; std::string payload; uint8_t *qos; bool *retain; std::optional<std::string> *corr, *resp, *ctype; UserProps *up; };
struct Plugin {
    int version = 5;
    std::function<AuthResult(const std::string &clientid, const std::string &user, const std::string &pass, const std::weak_ptr<Client> &)> login;
    std::function<AuthResult(const AclQ &)> acl;
    std::function<AuthResult(const std::string &clientid, ExtendedAuthStage, const std::string &method, const std::string &data, std::string &ret, std::string &user, const std::weak_ptr<Client> &)> extauth;
    std::function<bool(const std::string &clientid, std::string &topic, const std::vector<std::string> &sub, uint8_t &qos)> altersub;
    std::function<bool(PubQ &)> alterpub;
    std::function<void(const std::string &clientid)> disconnected;
    std::function<void(const std::string &clientid, const std::string &user, const std::string &topic, const std::vector<std::string> &sub, const std::string &share)> unsubscribe;
    std::function<void(int fd, uint32_t ev)> poll;
    std::function<void(bool reloading)> init, deinit;
    std::function<void()> periodic, main_init, main_deinit, alloc, dealloc;
};
Plugin &plugin();
constexpr const char *PLUGIN_CONF = "plugin /mcfs/plugin.so\n";
void install_plugin(); // makes the file exist
}
