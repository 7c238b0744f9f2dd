// The plug-in shared library the replay loads: forwards to the harness executable.
class CSubsystemLibrary;
namespace core { namespace log { class Logger; } }
extern "C" void harness_plugin_entry(CSubsystemLibrary *, core::log::Logger &) __attribute__((weak));
extern "C" __attribute__((visibility("default"))) void ParameterFrameworkPluginEntryPointMagicV1(CSubsystemLibrary *l, core::log::Logger &g)
{
    if (harness_plugin_entry) harness_plugin_entry(l, g);
}
