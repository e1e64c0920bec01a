//@include refspec.inc
//@include names.inc
//@include markupspec.inc
