// helpers for harnesses that run the whole measurement runtime
#pragma once
#include "hc.h"
#include "rec.h"
#include "caliper/cali.h"
#include "caliper/Caliper.h"
#include "caliper/SnapshotRecord.h"
#include "caliper/ConfigManager.h"
#include "common/RuntimeConfig.h"
#include "services/Services.h"
#include <map>

#ifndef HC_CONTROLLERS
namespace cali
{
extern const ConfigManager::ConfigInfo* builtin_controllers_table[];
const ConfigManager::ConfigInfo*        builtin_controllers_table[] = { nullptr };
extern const char*                      builtin_base_option_specs;
const char*                             builtin_base_option_specs = "[]";
} // namespace cali
#endif

// services that can be enabled by name
#define SERVICES(...) namespace cali { const CaliperService* verif_services() { static CaliperService l[] = { __VA_ARGS__ __VA_OPT__(,) { nullptr, nullptr } }; return l; } }

inline void quiet()
{
    RuntimeConfig cfg = RuntimeConfig::get_default_config();
    cfg.allow_read_env(false);
    cfg.preset("CALI_LOG_VERBOSITY", "0");
    cfg.preset("CALI_MEMORY_POOL_SIZE", "100000");
    cfg.preset("CALI_CONTEXTTREE_NODES_PER_BLOCK", "64");
    cfg.preset("CALI_CONTEXTTREE_NUM_BLOCKS", "64");
}

inline Channel make_channel(Caliper& c, const char* name, const std::map<std::string, std::string>& kv = {})
{
    RuntimeConfig cfg;
    cfg.allow_read_env(false);
    std::map<std::string, std::string> m(kv);
    m["CALI_CHANNEL_CONFIG_CHECK"] = "false";
    m["CALI_CHANNEL_FLUSH_ON_EXIT"] = "false";
    cfg.import(m);
    Channel ch = c.create_channel(name, cfg);
    return ch;
}
