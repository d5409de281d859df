B = {
"smallfile-part": dict(prop="P22", edits=[("src/linux/smallfile.c", """				strerror(errno));
			goto cleanup;
		}
		buffer_position""", """				strerror(errno));
			if (buffer_position == 0) {
				goto cleanup;
			}
			break;
		}
		buffer_position""")], keys="procs", checks=["P22"], needs="a read error after a first piece", breaks="truncated number believed"),
"name-third": dict(prop="P19", edits=[("src/x86/name.c", """			if (erase_matching(token_start, token_length, "Triple-Core")) {
				state->context_core = token_end;
				return true;
			}""", """			if (erase_matching(token_start, token_length, "Triple-Core")) {
				return true;
			}""")], keys="packages", checks=["P19"], needs="a brand string with Triple-Core Mobile", breaks="Mobile remains in the name"),
}
