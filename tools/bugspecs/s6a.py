exec(open('/tmp/pl/s5.py').read().split("def ibug")[0])
bug('c07-on-gosub-ret','C07','ON GOSUB followed by another statement on the line where the subroutine line list has two or more entries','RETURN from ON GOSUB lands on a later target',[(R,'push_return(vm, vm->code_state.pc + i->u.count + 1);','push_return(vm, k + (i->u.count > 6 ? i->u.count : i->u.count - (unsigned) x + 1));')],'10 A=2:ON A GOSUB 100,100,100,100,100,100,100:PRINT "b"\n15 PRINT "c"\n20 END\n100 PRINT "s":RETURN\nRUN\n')
bug('c04-redim-keep','C04','a second DIM of the same size','DIM of an existing array of the same size keeps the old cells',[(R,'''      pop_indexes(vm, max, i->u.param.params, sym->name);
      dimension_numeric(vm, sym, i->u.param.params, max);''','''      pop_indexes(vm, max, i->u.param.params, sym->name);
      if (sym->val.numarr && i->u.param.params == 1 && sym->val.numarr->size.dimensions == 1 && sym->val.numarr->size.max[0] == max[0])
        break;
      dimension_numeric(vm, sym, i->u.param.params, max);''')],'DIM A(4)\nA(2)=7\nDIM A(4)\nPRINT A(2)\n')
bug('c18-gosub-first','C18','a conditional on ON ... GOSUB with a missing target, tried more than seven times','ON ... GOSUB to a missing line leaves a return pending',[(R,'''      if (i->op == B_ON_GOSUB)
        push_return(vm, vm->code_state.pc + i->u.count + 1);
      go_to_basic_line(vm, basic_line);''','''      go_to_basic_line(vm, basic_line);''' if 0 else '''      if (i->op == B_ON_GOSUB)
        push_return(vm, vm->code_state.pc + i->u.count);
      go_to_basic_line(vm, basic_line);''')],'10 ON 1 GOSUB 40:PRINT "a"\n20 END\n40 RETURN\nRUN\n') if 0 else None
