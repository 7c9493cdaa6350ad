// the tool as it is, under another symbol name
int main(int, char **) asm("tool_show_glyphs");
#include "main/show_glyphs.cpp"
