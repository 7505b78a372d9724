S = "src/engine/Server.cpp"
BUGS = [
    ("suffix", S, 'file == "index.html" || file == "style.css" || file == "script.js"', 'file == "index.html" || ad_utility::endsWith(file, ".css") || file == "script.js"'),
    ("prefix", S, 'file == "script.js") {', 'file.find("script") == 0) {'),
    ("blacklist", S, 'if (file == "index.html" || file == "style.css" || file == "script.js") {', 'if (file.find("..") == string::npos) {'),
    ("decode after", S, "        serveFile(client, file);", "        file = ad_utility::decodeUrl(request.substr(indexOfGET + 5, upper - indexOfGET - 6));\n        serveFile(client, file);"),
    ("negated", S, '|| file == "script.js") {', '|| file != "script.js") {'),
    ("not shipped", S, '|| file == "script.js") {', '|| file == "script.js" || file == "settings.json") {'),
    ("falls through", S, "        LOG(DEBUG) << \"Sent \" << bytesSent << \" bytes.\" << std::endl;\n        return;\n      }\n    }\n\n    try {", "        LOG(DEBUG) << \"Sent \" << bytesSent << \" bytes.\" << std::endl;\n      }\n    }\n\n    try {"),
    ("log param", S, '      if (ad_utility::getLowercase(params["cmd"]) == "clearcache") {', '      if (params.contains("log")) {\n        std::ofstream os(params["log"]);\n        os << "x";\n      }\n      if (ad_utility::getLowercase(params["cmd"]) == "clearcache") {'),
    ("query from file", S, "  return it->second;\n}", "  if (it->second[0] == '@') {\n    std::ifstream in(it->second.substr(1));\n    return string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());\n  }\n  return it->second;\n}"),
    ("always serve", S, "    // Use hardcoded white-listing", "    if (indexOfQuest != string::npos && !file.empty()) {\n      serveFile(client, file);\n      return;\n    }\n    // Use hardcoded white-listing"),
]
SAFE = [
    ("helper variable", S, 'if (file == "index.html" || file == "style.css" || file == "script.js") {', 'const bool known = file == "index.html" || file == "style.css" || file == "script.js";\n      if (known) {'),
    ("negated order", S, """        serveFile(client, file);
        return;
      } else {
        LOG(INFO) << "Responding with 404 for file " << file << '\\n';
        auto bytesSent = client->send(create404HttpResponse());
        LOG(DEBUG) << "Sent " << bytesSent << " bytes." << std::endl;
        return;
      }""", """        serveFile(client, file);
        return;
      }
      LOG(INFO) << "Responding with 404 for file " << file << '\\n';
      client->send(create404HttpResponse());
      return;"""),
    ("set", S, 'if (file == "index.html" || file == "style.css" || file == "script.js") {', 'static const std::unordered_set<string> known{"index.html", "style.css", "script.js"};\n      if (known.count(file)) {'),
    ("lambda name", S, "  std::ifstream in(requestedFile.c_str());", "  const string path = string(\"./\") + requestedFile;\n  std::ifstream in(path);"),
]
