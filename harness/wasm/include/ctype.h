#pragma once
int isspace(int); int isdigit(int); int isalpha(int); int isalnum(int); int isprint(int); int isupper(int); int islower(int); int isxdigit(int); int tolower(int); int toupper(int);
