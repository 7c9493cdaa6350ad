// the tool as it is, under another symbol name
int main(int, char **) asm("tool_normalize_glyphs");
#include "main/normalize_glyphs.cpp"
