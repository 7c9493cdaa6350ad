// the tool as it is, under another symbol name
int main(int, char **) asm("tool_write_glyphs");
#include "main/write_glyphs.cpp"
