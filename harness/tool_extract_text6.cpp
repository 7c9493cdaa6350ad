// the tool as it is, under another symbol name
int main(int, char **) asm("tool_extract_text6");
#include "main/extract_text6.cpp"
