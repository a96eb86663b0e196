// ------------------------------------------------------------------ the scanner's indicators
//@item scanner::DIRECTIVE
//@end
//@item scanner::ANCHOR
//@end
//@item scanner::ALIAS
//@end
//@item scanner::TAG
//@end
//@item scanner::SINGLE
//@end
//@item scanner::DOUBLE
//@end
//@item scanner::VALUE
//@end
//@item scanner::FLOW_MAPPING_START
//@end
//@item scanner::FLOW_MAPPING_END
//@end
//@item scanner::FLOW_SEQUENCE_START
//@end
//@item scanner::FLOW_SEQUENCE_END
//@end
//@item scanner::FLOW_ENTRY
//@end
//@item scanner::BLOCK_ENTRY
//@end
//@item scanner::EXPLICIT_KEY
//@end
//@item scanner::LITERAL
//@end
//@item scanner::FOLDED
//@end
//@item scanner::COMMENT
//@end
//@item scanner::RESERVED_1
//@end
//@item scanner::RESERVED_2
//@end
//@item scanner::COMMENTS
//@end
//@item scanner::REQUIRED
//@end
//@item scanner::BLOCK_MAP
//@end
