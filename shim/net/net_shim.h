#pragma once
// Minimal stand-in for the parts of motis-project/net that soro's web server
// uses: routes are matched against the whole target by std::regex, requests are
// put in by the check instead of a socket.  Not part of the code under
// verification.
#include <deque>
#include <filesystem>
#include <fstream>
#include <functional>
#include <regex>
#include <stdexcept>
#include <string>
#include <string_view>
#include <variant>
#include <vector>

#include "boost/asio/io_context.hpp"
#include "boost/beast/core.hpp"
#include "boost/beast/http.hpp"
#include "boost/beast/version.hpp"

namespace net {

struct web_server {
  using http_req_t = boost::beast::http::request<boost::beast::http::string_body>;
  using string_res_t = boost::beast::http::response<boost::beast::http::string_body>;
  using empty_res_t = boost::beast::http::response<boost::beast::http::empty_body>;
  using http_res_t = std::variant<string_res_t, empty_res_t>;
  using http_res_cb_t = std::function<void(http_res_t&&)>;
  using http_req_cb_t = std::function<void(http_req_t, http_res_cb_t, bool)>;

  explicit web_server(boost::asio::io_context&) {}
  void on_http_request(http_req_cb_t cb) { cb_ = std::move(cb); }
  // where it was told to listen
  static std::vector<std::pair<std::string, std::string>>& places() {
    static std::vector<std::pair<std::string, std::string>> p;
    return p;
  }
  void init(std::string const& address, std::string const& port, boost::system::error_code&) { places().emplace_back(address, port); }
  void stop() {}
  // hands out what the check has queued
  static std::deque<std::pair<http_req_t, http_res_cb_t>>& queue() {
    static std::deque<std::pair<http_req_t, http_res_cb_t>> q;
    return q;
  }
  void run() {
    while (!queue().empty()) {
      auto [req, cb] = std::move(queue().front());
      queue().pop_front();
      cb_(std::move(req), std::move(cb), false);
    }
  }
  http_req_cb_t cb_;
};

struct query_router {
  struct route_request : web_server::http_req_t {
    route_request() = default;
    explicit route_request(web_server::http_req_t r) : web_server::http_req_t{std::move(r)} {}
    std::vector<std::string> path_params_;
    std::string username_, password_;
  };
  using handler = std::function<void(route_request const&, web_server::http_res_cb_t const&, bool)>;

  query_router& route(std::string method, std::string const& path, handler h) {
    routes_.push_back({std::move(method), std::regex{path}, std::move(h)});
    return *this;
  }
  void reply_hook(std::function<void(web_server::http_res_t const&)> h) { hook_ = std::move(h); }
  void operator()(web_server::http_req_t req, web_server::http_res_cb_t const& cb, bool ssl) {
    std::string const target(req.target());
    for (auto const& r : routes_) {
      std::smatch m;
      if (r.method_ != std::string_view(req.method_string()) || !std::regex_match(target, m, r.path_)) continue;
      route_request rr{std::move(req)};
      for (std::size_t i = 1; i < m.size(); ++i) rr.path_params_.push_back(m[i].str());
      r.fn_(rr, [&](web_server::http_res_t&& res) {
        if (hook_) hook_(res);
        cb(std::move(res));
      }, ssl);
      return;
    }
    web_server::string_res_t res{boost::beast::http::status::not_found, req.version()};
    cb(std::move(res));
  }
  struct entry {
    std::string method_;
    std::regex path_;
    handler fn_;
  };
  std::vector<entry> routes_;
  std::function<void(web_server::http_res_t const&)> hook_;
};

inline web_server::string_res_t status_response(web_server::http_req_t const& req, boost::beast::http::status s, std::string_view body) {
  web_server::string_res_t res{s, req.version()};
  res.keep_alive(req.keep_alive());
  res.body() = std::string(body);
  res.prepare_payload();
  return res;
}
inline web_server::string_res_t not_found_response(web_server::http_req_t const& req, std::string_view body = "not found") {
  return status_response(req, boost::beast::http::status::not_found, body);
}
inline web_server::string_res_t bad_request_response(web_server::http_req_t const& req, std::string_view body = "bad request") {
  return status_response(req, boost::beast::http::status::bad_request, body);
}
inline web_server::string_res_t server_error_response(web_server::http_req_t const& req, std::string_view body = "error") {
  return status_response(req, boost::beast::http::status::internal_server_error, body);
}
inline bool serve_static_file(std::string const& root, web_server::http_req_t const& req, web_server::http_res_cb_t const& cb) {
  std::string const target(req.target());
  if (target.find("..") != std::string::npos) return false;
  auto const path = std::filesystem::path(root + target);
  if (!std::filesystem::is_regular_file(path)) return false;
  std::ifstream f(path, std::ios::binary);
  cb(status_response(req, boost::beast::http::status::ok, std::string((std::istreambuf_iterator<char>(f)), {})));
  return true;
}

struct stop_handler {
  template <typename Fn>
  stop_handler(boost::asio::io_context&, Fn&&) {}
};

}  // namespace net
