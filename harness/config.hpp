// Components built from JSON texts through the registry.
#pragma once

#include <memory>
#include <sstream>
#include <string>

#include <blackhole/builder.hpp>
#include <blackhole/config/factory.hpp>
#include <blackhole/config/json.hpp>
#include <blackhole/config/node.hpp>
#include <blackhole/config/option.hpp>
#include <blackhole/factory.hpp>
#include <blackhole/filter.hpp>
#include <blackhole/formatter.hpp>
#include <blackhole/handler.hpp>
#include <blackhole/registry.hpp>
#include <blackhole/sink.hpp>

namespace bh {

inline std::unique_ptr<blackhole::config::factory_t> parse_config(const std::string& json) {
    std::istringstream stream(json);
    return blackhole::config::factory_traits<blackhole::config::json_t>::construct(stream);
}

inline std::unique_ptr<blackhole::sink_t> sink_from(const std::string& type, const std::string& json) {
    const auto registry = blackhole::registry::configured();
    auto config = parse_config(json);
    return registry->sink(type)(config->config());
}

}  // namespace bh
