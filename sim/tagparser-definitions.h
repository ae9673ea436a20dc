#ifndef TAG_PARSER_DEFINITIONS
#define TAG_PARSER_DEFINITIONS
#endif // TAG_PARSER_DEFINITIONS
