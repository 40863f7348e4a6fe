// The network: a stand-in for libcurl's easy interface, connected to a
// simulated server
#include "http_sim.h"
#include "sim.h"
#include <cstdarg>
#include <cstring>
#include <curl/curl.h>

#undef curl_easy_setopt
#undef curl_easy_getinfo

using namespace sim;
namespace sim {
std::function<HttpResponse(const HttpRequest&)> http_handler;
}

typedef size_t (*wfunc)(void*, size_t, size_t, void*);
struct SimMime;
struct SimCurl
{
    std::string url, method = "GET";
    SimMime* mime = nullptr;
    wfunc wf = nullptr, hf = nullptr;
    void *wd = nullptr, *hd = nullptr;
    char* errbuf = nullptr;
    long code    = 0;
    std::string redirect;
};
struct SimPart
{
    std::string name, data;
};
struct SimMime
{
    std::vector<SimPart*> parts;
};

extern "C" {
CURL* curl_easy_init() { return (CURL*)new SimCurl; }
void curl_easy_cleanup(CURL* c) { delete (SimCurl*)c; }
void curl_easy_reset(CURL* c) { *(SimCurl*)c = SimCurl(); }
const char* curl_easy_strerror(CURLcode c)
{
    switch (c)
    {
        case CURLE_COULDNT_CONNECT: return "Couldn't connect to server";
        case CURLE_PARTIAL_FILE: return "Transferred a partial file";
        case CURLE_OPERATION_TIMEDOUT: return "Timeout was reached";
        case CURLE_WRITE_ERROR: return "Failed writing received data to disk/application";
        case CURLE_RECV_ERROR: return "Failure when receiving data from the peer";
        default: return "curl error";
    }
}
CURLcode curl_easy_setopt(CURL* cc, CURLoption opt, ...)
{
    SimCurl* c = (SimCurl*)cc;
    va_list ap;
    va_start(ap, opt);
    switch (opt)
    {
        case CURLOPT_URL: c->url = va_arg(ap, const char*); break;
        case CURLOPT_POST:
            if (va_arg(ap, long)) c->method = "POST";
            break;
        case CURLOPT_HTTPGET:
            if (va_arg(ap, long)) c->method = "GET";
            break;
        case CURLOPT_MIMEPOST: c->mime = (SimMime*)va_arg(ap, void*); c->method = "POST"; break;
        case CURLOPT_WRITEFUNCTION: c->wf = va_arg(ap, wfunc); break;
        case CURLOPT_WRITEDATA: c->wd = va_arg(ap, void*); break;
        case CURLOPT_HEADERFUNCTION: c->hf = va_arg(ap, wfunc); break;
        case CURLOPT_WRITEHEADER: c->hd = va_arg(ap, void*); break;
        case CURLOPT_ERRORBUFFER: c->errbuf = va_arg(ap, char*); break;
        default: break;
    }
    va_end(ap);
    return CURLE_OK;
}
CURLcode curl_easy_getinfo(CURL* cc, CURLINFO info, ...)
{
    SimCurl* c = (SimCurl*)cc;
    va_list ap;
    va_start(ap, info);
    if (info == CURLINFO_RESPONSE_CODE) *va_arg(ap, long*) = c->code;
    else if (info == CURLINFO_REDIRECT_URL) *va_arg(ap, char**) = c->redirect.empty() ? nullptr : (char*)c->redirect.c_str();
    va_end(ap);
    return CURLE_OK;
}
curl_mime* curl_mime_init(CURL*) { return (curl_mime*)new SimMime; }
void curl_mime_free(curl_mime* m)
{
    for (auto p : ((SimMime*)m)->parts)
        delete p;
    delete (SimMime*)m;
}
curl_mimepart* curl_mime_addpart(curl_mime* m)
{
    auto p = new SimPart;
    ((SimMime*)m)->parts.push_back(p);
    return (curl_mimepart*)p;
}
CURLcode curl_mime_data(curl_mimepart* p, const char* d, size_t n)
{
    ((SimPart*)p)->data.assign(d, n == (size_t)-1 ? strlen(d) : n);
    return CURLE_OK;
}
CURLcode curl_mime_name(curl_mimepart* p, const char* n)
{
    ((SimPart*)p)->name = n;
    return CURLE_OK;
}
CURLcode curl_mime_filedata(curl_mimepart* p, const char* f)
{
    ((SimPart*)p)->data = std::string("@") + f;
    return CURLE_OK;
}
static CURLcode fail(SimCurl* c, CURLcode code)
{
    if (c->errbuf) strcpy(c->errbuf, curl_easy_strerror(code));
    return code;
}
CURLcode curl_easy_perform(CURL* cc)
{
    SimCurl* c = (SimCurl*)cc;
    c->code    = 0;
    c->redirect.clear();
    if (c->errbuf) c->errbuf[0] = 0;
    if (!S || !S->cur || !http_handler) return fail(c, CURLE_COULDNT_CONNECT);
    S->syscall("http_connect", c->url, false);
    HttpRequest req;
    req.url    = c->url;
    req.method = c->method;
    if (c->mime && c->method == "POST")
        for (auto p : c->mime->parts)
            req.fields.emplace_back(p->name, p->data);
    HttpResponse res = http_handler(req);
    if (res.refuse == 1) return fail(c, CURLE_COULDNT_CONNECT);
    if (res.refuse == 2)
    {
        S->sleep_until(S->now + 300LL * 1000000000);
        return fail(c, CURLE_OPERATION_TIMEDOUT);
    }
    c->code     = res.code;
    c->redirect = res.redirect;
    std::vector<std::string> h = {"HTTP/1.0 " + std::to_string(res.code) + " status\r\n"};
    for (auto& i : res.headers)
        h.push_back(i + "\r\n");
    h.push_back("\r\n");
    for (auto& l : h)
    {
        std::string copy = l;
        if (c->hf && c->hf(&copy[0], 1, copy.size(), c->hd) != copy.size()) return fail(c, CURLE_WRITE_ERROR);
    }
    size_t total = res.body.size();
    size_t upto  = res.cut >= 0 && (size_t)res.cut < total ? res.cut : total;
    size_t pos   = 0;
    // Long responses in very small pieces only make runs long
    size_t chunk = std::max<size_t>(res.chunk, 1 + total / 4000);
    while (pos < upto)
    {
        size_t n = std::min<size_t>(chunk, upto - pos);
        if (n > 1 && S->choose("net.chunk", 2, 0.5)) n = 1 + S->choose("net.chunk.n", n, 1.0) % n;
        S->syscall("http_recv", std::to_string(n), false);
        if (S->choose("net.delay", 2, 0.1)) S->sleep_until(S->now + 50000000);
        std::string copy = res.body.substr(pos, n);
        size_t r         = c->wf ? c->wf(&copy[0], 1, n, c->wd) : n;
        if (r != n) return fail(c, CURLE_WRITE_ERROR);
        pos += n;
    }
    if (upto < total && res.framed) return fail(c, CURLE_PARTIAL_FILE);
    return CURLE_OK;
}
} // extern "C"
