// the tool as it is, under another symbol name
int main(int, char **) asm("tool_extract_text8");
#include "main/extract_text8.cpp"
