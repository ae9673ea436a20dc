// Created via CMake from template config.h.in
// WARNING! Any changes to this file will be overwritten by the next CMake run!

#ifndef TAG_PARSER_CONFIG
#define TAG_PARSER_CONFIG

#define PROJECT_NAME "tagparser"
#define PROJECT_VARNAME "TAG_PARSER"
#define PROJECT_VARNAME_UPPER "TAG_PARSER"
#define PROJECT_LICENSE "GPL-2.0+"
#define PROJECT_CONFIG_NAME ""
#define PROJECT_NAMESPACE ""
#define PROJECT_CONFIG_SUFFIX ""
#define PROJECT_CONFIG_TARGET_SUFFIX ""
#define APP_NAME "Tag Parser"
#define APP_VERSION "12.5.3-sim"
#define APP_VERSION_MAJOR 12
#define APP_VERSION_MINOR 5
#define APP_VERSION_PATCH 3
#define APP_AUTHOR "Martchus"
#define APP_CREDITS ""
#define APP_URL "https://github.com/Martchus/tagparser"
#define APP_DOMAIN ""
#define APP_DESCRIPTION "C++ library for reading and writing MP4 (iTunes), ID3, Vorbis, Opus, FLAC and Matroska tags"
#define APP_INSTALL_PREFIX "/usr/local"
#define APP_DATA_DIR "share/tagparser"
#define DEPENCENCY_VERSIONS { \
    "C++ Utilities: 5.24.5"}

#endif // TAG_PARSER_CONFIG
