#ifndef ARKISIM_HTTP_H
#define ARKISIM_HTTP_H
#include <functional>
#include <map>
#include <string>
#include <vector>
namespace sim {
struct HttpRequest
{
    std::string url, method;
    std::vector<std::pair<std::string, std::string>> fields;
};
struct HttpResponse
{
    long code = 200;
    std::vector<std::string> headers;
    std::string body;
    bool framed = true; // the length is known to the client library
    std::string redirect;
    // Network behaviour
    long cut   = -1; // deliver only this many bytes of body
    int refuse = 0;  // 1 connection refused, 2 timeout
    unsigned chunk = 16384;
};
extern std::function<HttpResponse(const HttpRequest&)> http_handler;
} // namespace sim
#endif
