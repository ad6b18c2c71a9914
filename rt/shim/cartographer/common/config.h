#pragma once
namespace cartographer { namespace common { constexpr char kConfigurationFilesDirectory[] = "/cfg"; constexpr char kSourceDirectory[] = "/src"; } }
