"""What every property's check explores. n: cases per tier."""
MT = "MachineTrace"
PLAN = {
    "C01": {
        "mc": [dict(module="MC_Merge", cfg="MC_Merge", cfg_thorough="MC_Merge_deep", run="machine", spec=MT)],
        "streams": [dict(gen="merge", run="machine", spec=MT, quick=1400, thorough=20000),
                    dict(gen="folded", run="machine", spec=MT, quick=800, thorough=12000,
                         ops=["merge", "add_shape", "add_meta"])],
    },
    "C02": {
        "mc": [dict(module="MC_Apply", cfg="MC_Apply", cfg_thorough="MC_Apply_deep", run="machine", spec=MT)],
        "streams": [dict(gen="apply", run="machine", spec=MT, quick=1000, thorough=30000),
                    dict(gen="folded", run="machine", spec=MT, quick=800, thorough=12000,
                         ops=["apply", "append_traits", "remove_trait"])],
    },
    "C05": {
        "mc": [dict(module="MC_Query", cfg="MC_Query", cfg_thorough="MC_Query_deep", run="machine", spec=MT)],
        "streams": [dict(gen="query", run="machine", spec=MT, quick=300, thorough=8000,
                         ops=["query", "body", "set_body", "remove_shape", "remove_meta", "remove_trait"]),
                    dict(gen="folded", run="machine", spec=MT, quick=500, thorough=12000,
                         ops=["query", "body", "set_body", "remove_shape", "remove_meta", "remove_trait"])],
    },
    "C03": {
        "mc": [dict(module="MC_Builder", cfg="MC_Builder", cfg_thorough="MC_Builder_deep", run="builder", spec="BuilderTrace"),
               dict(module="MC_Prelude", cfg="MC_Prelude", run="builder", spec="BuilderTrace")],
        "streams": [dict(gen="builder", run="builder", spec="BuilderTrace", quick=600, thorough=12000)],
    },
    "C21": {
        "mc": [dict(module="MC_Decls", cfg="MC_Decls", cfg_thorough="MC_Decls_deep", run="builder", spec="BuilderTrace")],
        "streams": [dict(gen="decls", run="builder", spec="BuilderTrace", quick=600, thorough=12000)],
    },
    "C04": {
        "mc": [dict(module="MC_Ident", cfg="MC_Ident", cfg_thorough="MC_Ident_deep", run="ident", spec="IdentTrace")],
        "streams": [dict(gen="ident", run="ident", spec="IdentTrace", quick=300, thorough=5000)],
    },
    "C06": {
        "mc": [dict(module="MC_Actions", cfg="MC_Actions", cfg_thorough="MC_Actions_deep", run="action", spec="ActionsTrace")],
        "streams": [dict(gen="refs", run="action", spec="ActionsTrace", quick=1000, thorough=20000)],
    },
    "C07": {
        "mc": [dict(module="MC_Words", cfg="MC_Words", cfg_thorough="MC_Words_deep", run="action", spec="ActionsTrace")],
        "streams": [dict(gen="names", run="action", spec="ActionsTrace", quick=600, thorough=10000)],
    },
    "C08": {
        "mc": [dict(module="MC_Runner", cfg="MC_Runner", cfg_thorough="MC_Runner_deep", run="action", spec="ActionsTrace")],
        "streams": [dict(gen="runs", run="action", spec="ActionsTrace", quick=600, thorough=10000)],
    },
    "C09": {
        "mc": [dict(module="MC_Json", cfg="MC_Json", cfg_thorough="MC_Json_deep", run="json", spec="JsonTrace", ops=["write", "nonfinite"])],
        "streams": [dict(gen="jsonwrite", run="json", spec="JsonTrace", quick=600, thorough=12000)],
        "pinned": [dict(file="json.ndjson", run="json", spec="JsonTrace", ops=["write"])],
    },
    "C10": {
        "mc": [dict(module="MC_Json", cfg="MC_Json", cfg_thorough="MC_Json_deep", run="json", spec="JsonTrace", ops=["read", "raw"])],
        "streams": [dict(gen="jsonread", run="json", spec="JsonTrace", quick=1500, thorough=30000)],
        "pinned": [dict(file="json.ndjson", run="json", spec="JsonTrace", ops=["read"])],
    },
    "C11": {
        "mc": [dict(module="MC_Idl", cfg="MC_Idl", cfg_thorough="MC_Idl_deep", run="idl", spec="IdlTrace")],
        "streams": [dict(gen="idlread", run="idl", spec="IdlTrace", quick=600, thorough=10000)],
        "pinned": [dict(file="idl.ndjson", run="idl", spec="IdlTrace")],
    },
    "C12": {
        "mc": [dict(module="MC_IdlWrite", cfg="MC_IdlWrite", cfg_thorough="MC_IdlWrite_deep", run="idl", spec="IdlTrace")],
        "streams": [dict(gen="idlwrite", run="idl", spec="IdlTrace", quick=300, thorough=6000)],
        "pinned": [dict(file="idlwrite.ndjson", run="idl", spec="IdlTrace")],
    },
    "C13": {
        "mc": [dict(module="MC_Lines", cfg="MC_Lines", cfg_thorough="MC_Lines_deep", run="forms", spec="FormsTrace"),
               dict(module="MC_LineKeys", cfg="MC_LineKeys", cfg_thorough="MC_LineKeys_deep", run="forms", spec="FormsTrace")],
        "streams": [dict(gen="lines", run="forms", spec="FormsTrace", quick=600, thorough=12000)],
        "pinned": [dict(file="lines.ndjson", run="forms", spec="FormsTrace")],
    },
    "C14": {
        "mc": [dict(module="MC_Visit", cfg="MC_Visit", cfg_thorough="MC_Visit_deep", run="forms", spec="FormsTrace")],
        "streams": [dict(gen="walk", run="forms", spec="FormsTrace", quick=500, thorough=10000)],
    },
    "C15": {
        "mc": [dict(module="MC_Selector", cfg="MC_Selector", cfg_thorough="MC_Selector_deep", run="selector", spec="SelectorTrace")],
        "streams": [dict(gen="selector", run="selector", spec="SelectorTrace", quick=300, thorough=6000)],
    },
    "C16": {
        "mc": [dict(module="MC_Assembler", cfg="MC_Assembler", cfg_thorough="MC_Assembler_deep", run="assemble", spec="AssemblerTrace")],
        "streams": [dict(gen="assemble", run="assemble", spec="AssemblerTrace", quick=800, thorough=12000)],
    },
    "C22": {
        "mc": [dict(module="MC_Registry", cfg="MC_Registry", cfg_thorough="MC_Registry_deep", run="registry", spec="RegistryTrace")],
        "streams": [dict(gen="registry", run="registry", spec="RegistryTrace", quick=800, thorough=20000)],
    },
    "C23": {
        "mc": [dict(module="MC_Values", cfg="MC_Values", cfg_thorough="MC_Values_deep", run="values", spec="ValuesTrace")],
        "streams": [dict(gen="values", run="values", spec="ValuesTrace", quick=1500, thorough=30000)],
    },
    "C17": {
        "mc": [dict(module="MC_Rdf", cfg="MC_Rdf", cfg_thorough="MC_Rdf_deep", run="rdf", spec="RdfTrace")],
        "streams": [dict(gen="rdf", run="rdf", spec="RdfTrace", quick=300, thorough=6000)],
    },
    "C18": {
        "mc": [dict(module="MC_Describe", cfg="MC_Describe", cfg_thorough="MC_Describe_deep", run="describe", spec="DescribeTrace")],
        "streams": [dict(gen="describe", run="describe", spec="DescribeTrace", quick=300, thorough=6000)],
        "pinned": [dict(file="describe.ndjson", run="describe", spec="DescribeTrace")],
    },
    "C19": {
        "mc": [dict(module="MC_Cli", cfg="MC_Cli", cfg_thorough="MC_Cli_deep", run="cli", spec="CliTrace")],
        "streams": [dict(gen="cli", run="cli", spec="CliTrace", quick=500, thorough=8000)],
    },
    "C20": {
        "mc": [dict(module="MC_ShapeQuery", cfg="MC_ShapeQuery", cfg_thorough="MC_ShapeQuery_deep", run="query", spec="ShapeQueryTrace")],
        "streams": [dict(gen="shapequery", run="query", spec="ShapeQueryTrace", quick=400, thorough=8000)],
    },
}
