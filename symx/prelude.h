typedef struct vm* vm;
