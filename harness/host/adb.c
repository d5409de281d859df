/* Stands in for adb: answers from the directory $VERIF_ROOT, which holds a device's files. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static int copy(const char* path, FILE* to) {
	char b[8192];
	snprintf(b, sizeof(b), "%s%s", getenv("VERIF_ROOT"), path);
	FILE* f = fopen(b, "rb");
	if (!f)
		return 0;
	size_t n;
	while ((n = fread(b, 1, sizeof(b), f)) > 0)
		fwrite(b, 1, n, to);
	fclose(f);
	return 1;
}

int main(int argc, char** argv) {
	if (argc == 4 && strcmp(argv[1], "pull") == 0) {
		/* the target is rewritten only when there is something to pull */
		char b[8192];
		snprintf(b, sizeof(b), "%s%s", getenv("VERIF_ROOT"), argv[2]);
		FILE* f = fopen(b, "rb");
		if (!f)
			return 1;
		fclose(f);
		FILE* to = fopen(argv[3], "wb");
		if (!to)
			return 1;
		copy(argv[2], to);
		fclose(to);
		return 0;
	}
	if (argc == 4 && strcmp(argv[1], "push") == 0)
		return 0;
	if (argc >= 3 && strcmp(argv[1], "shell") == 0) {
		/* an old device: the status of the command is lost */
		if (strcmp(argv[2], "cat") == 0 && argc == 4) {
			if (!copy(argv[3], stdout))
				printf("cat: %s: No such file or directory\n", argv[3]);
			return 0;
		}
		char b[256];
		const char* name = strrchr(argv[2], '/');
		snprintf(b, sizeof(b), "/@%s", name ? name + 1 : argv[2]);
		copy(b, stdout);
		return 0;
	}
	return 2;
}
