// the tool as it is, under another symbol name
int main(int, char **) asm("tool_ocr2_extract_text");
#include "main/ocr2_extract_text.cpp"
